/* Declaration-only stand-in for secp256k1-zkp (not available offline). Used only so
   that the analyses can parse the sources that include it; never linked or run. */
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
typedef struct secp256k1_context_struct secp256k1_context;
typedef struct secp256k1_scratch_space_struct secp256k1_scratch_space;
typedef struct { unsigned char data[64]; } secp256k1_pubkey;
typedef struct { unsigned char data[64]; } secp256k1_ecdsa_signature;
typedef struct { unsigned char data[64]; } secp256k1_generator;
typedef struct { unsigned char data[64]; } secp256k1_pedersen_commitment;
typedef struct { unsigned char data[64]; } secp256k1_schnorrsig;
typedef struct secp256k1_bulletproof_generators secp256k1_bulletproof_generators;
typedef int (*secp256k1_nonce_function)(unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, void*, unsigned int);
#define SECP256K1_CONTEXT_VERIFY 257u
#define SECP256K1_CONTEXT_SIGN 513u
#define SECP256K1_EC_COMPRESSED 258u
#define SECP256K1_EC_UNCOMPRESSED 2u
extern const secp256k1_generator secp256k1_generator_const_g;
extern const secp256k1_generator secp256k1_generator_const_h;
secp256k1_context* secp256k1_context_create(unsigned int);
void secp256k1_context_destroy(secp256k1_context*);
int secp256k1_context_randomize(secp256k1_context*, const unsigned char*);
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context*, size_t);
void secp256k1_scratch_space_destroy(secp256k1_scratch_space*);
int secp256k1_ec_pubkey_parse(const secp256k1_context*, secp256k1_pubkey*, const unsigned char*, size_t);
int secp256k1_ec_pubkey_serialize(const secp256k1_context*, unsigned char*, size_t*, const secp256k1_pubkey*, unsigned int);
int secp256k1_ec_pubkey_combine(const secp256k1_context*, secp256k1_pubkey*, const secp256k1_pubkey* const*, size_t);
int secp256k1_ec_pubkey_create(const secp256k1_context*, secp256k1_pubkey*, const unsigned char*);
int secp256k1_ec_seckey_verify(const secp256k1_context*, const unsigned char*);
int secp256k1_ec_privkey_tweak_add(const secp256k1_context*, unsigned char*, const unsigned char*);
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context*, secp256k1_ecdsa_signature*, const unsigned char*);
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context*, unsigned char*, const secp256k1_ecdsa_signature*);
int secp256k1_aggsig_export_secnonce_single(const secp256k1_context*, unsigned char*, const unsigned char*);
int secp256k1_aggsig_sign_single(const secp256k1_context*, unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, const secp256k1_pubkey*, const secp256k1_pubkey*, const secp256k1_pubkey*, const unsigned char*);
int secp256k1_aggsig_verify_single(const secp256k1_context*, const unsigned char*, const unsigned char*, const secp256k1_pubkey*, const secp256k1_pubkey*, const secp256k1_pubkey*, const secp256k1_pubkey*, const int);
int secp256k1_aggsig_add_signatures_single(const secp256k1_context*, unsigned char*, const unsigned char**, size_t, const secp256k1_pubkey*);
int secp256k1_schnorrsig_parse(const secp256k1_context*, secp256k1_schnorrsig*, const unsigned char*);
int secp256k1_schnorrsig_verify_batch(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_schnorrsig* const*, const unsigned char* const*, const secp256k1_pubkey* const*, size_t);
int secp256k1_pedersen_commitment_parse(const secp256k1_context*, secp256k1_pedersen_commitment*, const unsigned char*);
int secp256k1_pedersen_commitment_serialize(const secp256k1_context*, unsigned char*, const secp256k1_pedersen_commitment*);
int secp256k1_pedersen_commit(const secp256k1_context*, secp256k1_pedersen_commitment*, const unsigned char*, uint64_t, const secp256k1_generator*, const secp256k1_generator*);
int secp256k1_pedersen_commit_sum(const secp256k1_context*, secp256k1_pedersen_commitment*, const secp256k1_pedersen_commitment* const*, size_t, const secp256k1_pedersen_commitment* const*, size_t);
int secp256k1_pedersen_blind_sum(const secp256k1_context*, unsigned char*, const unsigned char* const*, size_t, size_t);
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context*, secp256k1_pubkey*, const secp256k1_pedersen_commitment*);
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context*, secp256k1_pedersen_commitment*, const secp256k1_pubkey*);
int secp256k1_blind_switch(const secp256k1_context*, unsigned char*, const unsigned char*, uint64_t, const secp256k1_generator*, const secp256k1_generator*, const secp256k1_pubkey*);
secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context*, const secp256k1_generator*, size_t);
void secp256k1_bulletproof_generators_destroy(const secp256k1_context*, secp256k1_bulletproof_generators*);
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, const unsigned char* const*, size_t, size_t, const uint64_t* const*, const secp256k1_pedersen_commitment* const*, size_t, size_t, const secp256k1_generator*, const unsigned char* const*, const size_t*);
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, unsigned char*, size_t*, unsigned char*, unsigned char*, const secp256k1_pedersen_commitment**, const uint64_t*, const uint64_t*, const unsigned char* const*, const secp256k1_pedersen_commitment* const*, size_t, const secp256k1_generator*, size_t, const unsigned char*, const unsigned char*, const unsigned char*, size_t, const unsigned char*);
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context*, uint64_t*, unsigned char*, const unsigned char*, size_t, uint64_t, const secp256k1_pedersen_commitment*, const secp256k1_generator*, const unsigned char*, const unsigned char*, size_t, unsigned char*);
}
