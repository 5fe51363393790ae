From 2c2ce97e3504026fe80ca1f4b57972b061e0581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 01/67] fix: reject headers whose previous hash does not match
 the preceding header

---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..47cdb7d 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -15,6 +15,11 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Invalid height for header {}", header);
     }
 
+    // Validate Previous Hash
+    if (header.GetPreviousHash() != prev_header.GetHash()) {
+        throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Invalid previous hash for header {}", header);
+    }
+
     // Validate Timestamp - Ensure timestamp not too far in the future
     if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
-- 
2.43.0


From 7ff6814d63afe093868ec1a123c66c7dd9b3339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 02/67] fix: compare header timestamps with the future time
 limit in seconds

---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 47cdb7d..f4ea2f9 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -21,7 +21,9 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    // GetMaxBlockTime is expressed in system_clock ticks, while header timestamps are in seconds.
+    const std::chrono::system_clock::duration maxBlockTime(Consensus::GetMaxBlockTime(std::chrono::system_clock::now()));
+    if (header.GetTimestamp() > std::chrono::duration_cast<std::chrono::seconds>(maxBlockTime).count()) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From 953e93629bbb9f1f1ce534cf3b6cd500de5adb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 03/67] fix: record when a transaction entered the pool so its
 embargo timer can run

---
 src/TxPool/Pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b875915..604c826 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -33,7 +33,7 @@ void Pool::AddTransaction(TransactionPtr pTransaction, const EDandelionStatus st
 {
 	LOG_DEBUG_F("Transaction added: {}", pTransaction->GetHash());
 
-	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time_t()));
+	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time(nullptr)));
 }
 
 bool Pool::ContainsTransaction(const Transaction& transaction) const
-- 
2.43.0


From 58d2713c6273d69da318f63ca7bb1b18bd1814e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 04/67] fix: step past a banned peer when looking for peers to
 connect to

---
 src/P2P/Seed/PeerManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 3709062..5c92ef9 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -242,6 +242,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
         const PeerPtr& peer = peerEntry.m_peer;
 
         if (connectingToPeer && peer->GetLastBanTime() > maxBanTime) {
+            iter++;
             continue;
         }
 
-- 
2.43.0


From e89da764dfc0acaa5555594f5b83de71ffc2409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 05/67] fix: reject lengths that overflow the read position of
 ByteBuffer

---
 include/Core/Serialization/ByteBuffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Core/Serialization/ByteBuffer.h b/include/Core/Serialization/ByteBuffer.h
index 17ae678..f852c16 100644
--- a/include/Core/Serialization/ByteBuffer.h
+++ b/include/Core/Serialization/ByteBuffer.h
@@ -157,7 +157,7 @@ public:
             return "";
         }
 
-        if (m_index + stringLength > m_bytes.size()) {
+        if (stringLength > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -169,7 +169,7 @@ public:
 
     std::string ReadString(const size_t size)
     {
-        if (m_index + size > m_bytes.size()) {
+        if (size > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -195,7 +195,7 @@ public:
 
     std::vector<uint8_t> ReadVector(const uint64_t numBytes)
     {
-        if (m_index + numBytes > m_bytes.size()) {
+        if (numBytes > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
-- 
2.43.0


From ac23d648ed39aa52718d9477f6840ec876c7ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 06/67] fix: compare the available balance, not the amount,
 when spending all inputs

---
 src/Wallet/SlateBuilder/CoinSelection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index e1e7774..59be1a8 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -105,7 +105,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amount < amount + fee) {
+	if (amountFound >= (amount + fee)) {
 		return availableCoins;
 	}
 
-- 
2.43.0


From 26d1222455a4a2de879d9177fa7897b8812088a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 07/67] fix: refuse to send an entire balance that cannot pay
 the fee

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 31d4408..46f5264 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -10,6 +10,7 @@
 #include <Common/Util/FunctionalUtil.h>
 #include <Common/Logger.h>
 #include <Net/Tor/TorAddressParser.h>
+#include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Crypto/ED25519.h>
 #include <Wallet/Models/Slatepack/Armor.h>
 
@@ -66,6 +67,12 @@ Slate SendSlateBuilder::BuildSendSlate(
 		(int64_t)totalNumOutputs,
 		(int64_t)numKernels
 	);
+	if (sendEntireBalance && inputTotal <= fee)
+	{
+		WALLET_ERROR("Not enough funds.");
+		throw InsufficientFundsException();
+	}
+
 	uint64_t amountToSend = sendEntireBalance ? (inputTotal - fee) : amount;
 	if (numChangeOutputs == 0)
 	{
-- 
2.43.0


From 0d4f873278ae1bc532b0d7f360e1309f539fb404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 08/67] fix: cache verified range proofs by their content, and
 reject mixed proof lengths

---
 src/Crypto/BulletProofsCache.h | 11 ++++++-----
 src/Crypto/Bulletproofs.cpp    | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/Crypto/BulletProofsCache.h b/src/Crypto/BulletProofsCache.h
index 81aa04b..11f216d 100644
--- a/src/Crypto/BulletProofsCache.h
+++ b/src/Crypto/BulletProofsCache.h
@@ -2,6 +2,7 @@
 
 #include <caches/Cache.h>
 #include <Crypto/Models/Commitment.h>
+#include <Crypto/Models/RangeProof.h>
 #include <mutex>
 
 class BulletProofsCache
@@ -13,20 +14,20 @@ public:
 
 	}
 
-	void AddToCache(const Commitment& commitment)
+	void AddToCache(const Commitment& commitment, const RangeProof& rangeProof)
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
-		m_bulletproofsCache.Put(commitment, commitment);
+		m_bulletproofsCache.Put(commitment, rangeProof.GetProofBytes());
 	}
 
-	bool WasAlreadyVerified(const Commitment& commitment) const
+	bool WasAlreadyVerified(const Commitment& commitment, const RangeProof& rangeProof) const
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
 		if (m_bulletproofsCache.Cached(commitment))
 		{
-			return m_bulletproofsCache.Get(commitment) == commitment;
+			return m_bulletproofsCache.Get(commitment) == rangeProof.GetProofBytes();
 		}
 
 		return false;
@@ -34,5 +35,5 @@ public:
 
 private:
 	mutable std::mutex m_mutex;
-	mutable LRUCache<Commitment, Commitment> m_bulletproofsCache;
+	mutable LRUCache<Commitment, std::vector<unsigned char>> m_bulletproofsCache;
 };
\ No newline at end of file
diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 5088209..b6e5e50 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -40,13 +40,23 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 	std::vector<Commitment> commitments;
 	commitments.reserve(rangeProofs.size());
 
+	std::vector<RangeProof> proofs;
+	proofs.reserve(rangeProofs.size());
+
 	std::vector<const unsigned char*> bulletproofPointers;
 	bulletproofPointers.reserve(rangeProofs.size());
 	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
 	{
-		if (!m_cache.WasAlreadyVerified(rangeProof.first))
+		// All proofs are verified together, using the length of the first one.
+		if (rangeProof.second.GetProofBytes().size() != proofLength) {
+			LOG_ERROR("Rangeproofs have different lengths");
+			return false;
+		}
+
+		if (!m_cache.WasAlreadyVerified(rangeProof.first, rangeProof.second))
 		{
 			commitments.push_back(rangeProof.first);
+			proofs.push_back(rangeProof.second);
 			bulletproofPointers.emplace_back(rangeProof.second.GetProofBytes().data());
 		}
 	}
@@ -75,9 +85,9 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 		return false;
 	}
 
-	for (const Commitment& commitment : commitments)
+	for (size_t i = 0; i < commitments.size(); i++)
 	{
-		m_cache.AddToCache(commitment);
+		m_cache.AddToCache(commitments[i], proofs[i]);
 	}
 
 	return true;
-- 
2.43.0


From c520152f5a7ba0afae8d0ab48f46eb7aee6b385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 09/67] fix: let a message handler disconnect its connection
 without deadlocking

---
 src/P2P/Connection.cpp | 10 +++++-----
 src/P2P/Connection.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 9aa6577..13fa49f 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -20,7 +20,7 @@ void Connection::Connect()
 
 void Connection::Disconnect()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!m_terminate) {
         m_terminate = true;
@@ -143,7 +143,7 @@ void Connection::HandleConnected(const asio::error_code& ec)
 
 void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == 11) {
         assert(m_received.size() == 11);
@@ -175,7 +175,7 @@ void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t b
 
 void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == msg_header.GetLength()) {
         assert(m_received.size() == msg_header.GetLength());
@@ -221,7 +221,7 @@ void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_
 
 void Connection::CheckPing()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!GetSocket()->IsActive()) {
         return;
@@ -257,7 +257,7 @@ bool Connection::SendSync(const IMessage& message)
 
 bool Connection::ReceiveSync(std::vector<uint8_t>& bytes, const size_t num_bytes)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     bytes = m_pSocket->ReceiveSync(num_bytes, false);
     if (bytes.size() != num_bytes) {
diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 142ebf9..0163d35 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -112,7 +112,7 @@ private:
 	mutable SocketPtr m_pSocket;
 
 	mutable LRUCache<Hash, Hash> m_advertisedBlocks;
-	mutable std::mutex m_mutex;
+	mutable std::recursive_mutex m_mutex;
 };
 
 typedef std::shared_ptr<Connection> ConnectionPtr;
\ No newline at end of file
-- 
2.43.0


From 6a87e2ee6a46ccf4b3e9af2f5f1127f4fafef826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 10/67] fix: initialise the flag that pauses reading from a
 connection

---
 src/P2P/Connection.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 0163d35..3695970 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -46,6 +46,7 @@ public:
 		m_pMessageProcessor(pMessageProcessor),
 		m_terminate(false),
 		m_sendingDisabled(false),
+		m_receivingDisabled(false),
 		m_advertisedBlocks(256) { }
 
 	Connection(const Connection&) = delete;
-- 
2.43.0


From 78554ddb34feb88d32500f63cc26fadb800cef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 11/67] fix: prune every dead connection, also those next to
 another dead one

---
 src/P2P/ConnectionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index fbee250..4ac6de9 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -193,7 +193,7 @@ void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 	auto connectionsWriter = m_connections.Write();
 	std::vector<ConnectionPtr>& connections = *connectionsWriter;
 
-	for (auto iter = connections.begin(); iter < connections.end(); iter++) {
+	for (auto iter = connections.begin(); iter != connections.end();) {
 		ConnectionPtr pConnection = *iter;
 		if (!bInactiveOnly || !pConnection->IsConnectionActive()) {
 			try { 
@@ -202,7 +202,9 @@ void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 			catch (std::exception& e) {
 				LOG_ERROR("Error disconnecting: {}", e.what());
 			}
-			connections.erase(iter);
+			iter = connections.erase(iter);
+		} else {
+			iter++;
 		}
 	}
 
-- 
2.43.0


From 56b8ac52698c159e0bd8187dc431ab0a062610ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 12/67] fix: receive TxHashSet archives of 2 GB and more

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 94c7728..c2d86a9 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -94,7 +94,7 @@ void TxHashSetPipe::Thread_ProcessTxHashSet(TxHashSetPipe& pipeline, Connection:
 		size_t bytesReceived = 0;
 		std::vector<uint8_t> buffer(BUFFER_SIZE, 0);
 		while (bytesReceived < zipped_size) {
-			const int bytesToRead = (std::min)((int)(zipped_size - bytesReceived), BUFFER_SIZE);
+			const size_t bytesToRead = (size_t)(std::min)(zipped_size - bytesReceived, (uint64_t)BUFFER_SIZE);
 
 			const bool received = pConnection->ReceiveSync(buffer, bytesToRead);
 			if (!received || !Global::IsRunning()) {
-- 
2.43.0


From 90df7725a194f37714da33f740ca5c3bed03180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 13/67] fix: send the last, partial chunk of a TxHashSet
 archive

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index c2d86a9..e612f4b 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -208,7 +208,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 
 		std::vector<uint8_t> buffer(BUFFER_SIZE, 0);
 			
-		while (file.read((char*)buffer.data(), BUFFER_SIZE)) {
+		while (file.read((char*)buffer.data(), BUFFER_SIZE) || file.gcount() > 0) {
 			std::vector<uint8_t> bytesToSend(
 				buffer.cbegin(),
 				buffer.cbegin() + file.gcount()
-- 
2.43.0


From 0885a7e19723663eac08fd147a466062c22ee23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 14/67] fix: keep accepting connections after one is refused or
 fails

---
 src/P2P/Seed/Seeder.cpp | 16 +++++++++++++---
 src/P2P/Seed/Seeder.h   |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/P2P/Seed/Seeder.cpp b/src/P2P/Seed/Seeder.cpp
index 5178643..c64e8d0 100644
--- a/src/P2P/Seed/Seeder.cpp
+++ b/src/P2P/Seed/Seeder.cpp
@@ -125,6 +125,19 @@ void Seeder::Accept(const asio::error_code& ec)
     
     if (ec) return;
     
+    try {
+        AcceptConnection();
+    }
+    catch (std::exception& e) {
+        LOG_WARNING_F("Failed to accept connection: {}", e.what());
+    }
+
+    m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
+    m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
+}
+
+void Seeder::AcceptConnection()
+{
     if (m_connectionManager.GetNumberOfActiveConnections() < Global::GetConfig().GetMaxPeers()) {
         SocketAddress socket_address = SocketAddress::FromEndpoint(m_pSocket->remote_endpoint());
         SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(m_pSocket->remote_endpoint()), m_pAsioContext, m_pSocket));
@@ -157,9 +170,6 @@ void Seeder::Accept(const asio::error_code& ec)
         asio::error_code ignoreError;
         m_pSocket->close(ignoreError);
     }
-
-    m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
-    m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
 }
 
 void Seeder::SeedNewConnection()
diff --git a/src/P2P/Seed/Seeder.h b/src/P2P/Seed/Seeder.h
index 5f67f58..e94b22a 100644
--- a/src/P2P/Seed/Seeder.h
+++ b/src/P2P/Seed/Seeder.h
@@ -49,6 +49,7 @@ private:
 	void StartListener();
 
 	void Accept(const asio::error_code& ec);
+	void AcceptConnection();
 	void SeedNewConnection();
 
 	ConnectionManager& m_connectionManager;
-- 
2.43.0


From 2b6ce13094537566690f2e3de7548c55ec2f86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 15/67] fix: refuse handshakes of peers with a different
 genesis block

---
 src/P2P/Seed/HandShake.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/P2P/Seed/HandShake.cpp b/src/P2P/Seed/HandShake.cpp
index 7bc9438..264401c 100644
--- a/src/P2P/Seed/HandShake.cpp
+++ b/src/P2P/Seed/HandShake.cpp
@@ -45,6 +45,10 @@ void HandShake::PerformOutboundHandshake(const Socket::Ptr& pSocket, ConnectedPe
     ByteBuffer buffer(pReceived->GetPayload());
     ShakeMessage shakeMessage = ShakeMessage::Deserialize(buffer);
 
+    if (shakeMessage.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Peer is on a different chain");
+    }
+
     uint32_t version = (std::min)(P2P::PROTOCOL_VERSION, shakeMessage.GetVersion());
     connectedPeer.UpdateVersion(version);
     connectedPeer.UpdateCapabilities(shakeMessage.GetCapabilities());
@@ -71,6 +75,10 @@ void HandShake::PerformInboundHandshake(const Socket::Ptr& pSocket, ConnectedPee
         throw PROTOCOL_EXCEPTION("Connected to self");
     }
 
+    if (hand_message.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Peer is on a different chain");
+    }
+
     if (m_connectionManager.IsConnected(connectedPeer.GetIPAddress())) {
         throw PROTOCOL_EXCEPTION("Already connected to peer");
     }
-- 
2.43.0


From e9ea2e6ff2bb542bf68f8a11d34bd4816d3e9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 16/67] fix: reject unknown kernel and output features

---
 src/Core/Models/OutputIdentifier.cpp  | 8 +++++++-
 src/Core/Models/TransactionInput.cpp  | 8 +++++++-
 src/Core/Models/TransactionKernel.cpp | 8 +++++++-
 src/Core/Models/TransactionOutput.cpp | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Core/Models/OutputIdentifier.cpp b/src/Core/Models/OutputIdentifier.cpp
index c3b5656..4477d12 100644
--- a/src/Core/Models/OutputIdentifier.cpp
+++ b/src/Core/Models/OutputIdentifier.cpp
@@ -26,7 +26,13 @@ void OutputIdentifier::Serialize(Serializer& serializer) const
 OutputIdentifier OutputIdentifier::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const uint8_t featuresByte = byteBuffer.ReadU8();
+	if (featuresByte > (uint8_t)EOutputFeatures::COINBASE_OUTPUT)
+	{
+		throw DESERIALIZATION_EXCEPTION_F("Unknown output features: {}", featuresByte);
+	}
+
+	const EOutputFeatures features = (EOutputFeatures)featuresByte;
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
diff --git a/src/Core/Models/TransactionInput.cpp b/src/Core/Models/TransactionInput.cpp
index ddac512..b34453b 100644
--- a/src/Core/Models/TransactionInput.cpp
+++ b/src/Core/Models/TransactionInput.cpp
@@ -30,7 +30,13 @@ TransactionInput TransactionInput::Deserialize(ByteBuffer& byteBuffer)
 		EOutputFeatures features = Global::GetCoinView()->GetOutputType(commitment);
 		return TransactionInput(features, std::move(commitment));
 	} else {
-		EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+		const uint8_t featuresByte = byteBuffer.ReadU8();
+		if (featuresByte > (uint8_t)EOutputFeatures::COINBASE_OUTPUT)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Unknown output features: {}", featuresByte);
+		}
+
+		EOutputFeatures features = (EOutputFeatures)featuresByte;
 		Commitment commitment = Commitment::Deserialize(byteBuffer);
 		return TransactionInput(features, std::move(commitment));
 	}
diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 71de1cd..02db048 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -60,7 +60,13 @@ void TransactionKernel::Serialize(Serializer& serializer) const
 TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read KernelFeatures (1 byte)
-	const EKernelFeatures features = (EKernelFeatures)byteBuffer.ReadU8();
+	const uint8_t featuresByte = byteBuffer.ReadU8();
+	if (featuresByte > (uint8_t)EKernelFeatures::NO_RECENT_DUPLICATE)
+	{
+		throw DESERIALIZATION_EXCEPTION_F("Unknown kernel features: {}", featuresByte);
+	}
+
+	const EKernelFeatures features = (EKernelFeatures)featuresByte;
 
 	Fee fee;
 	uint64_t lockHeight = 0;
diff --git a/src/Core/Models/TransactionOutput.cpp b/src/Core/Models/TransactionOutput.cpp
index b099183..55e03e4 100644
--- a/src/Core/Models/TransactionOutput.cpp
+++ b/src/Core/Models/TransactionOutput.cpp
@@ -29,7 +29,13 @@ void TransactionOutput::Serialize(Serializer& serializer) const
 TransactionOutput TransactionOutput::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const uint8_t featuresByte = byteBuffer.ReadU8();
+	if (featuresByte > (uint8_t)EOutputFeatures::COINBASE_OUTPUT)
+	{
+		throw DESERIALIZATION_EXCEPTION_F("Unknown output features: {}", featuresByte);
+	}
+
+	const EOutputFeatures features = (EOutputFeatures)featuresByte;
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
-- 
2.43.0


From 3eb7f3c1887396343985d3fc7205340b451c7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 17/67] fix: keep the relative height when writing NRD kernels
 as JSON

---
 src/Core/Models/TransactionKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 02db048..4b81b58 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -121,7 +121,7 @@ Json::Value TransactionKernel::ToJSON() const
 		features_attrs_json["fee"] = m_fee.ToJSON();
 	}
 
-	if (m_features == EKernelFeatures::HEIGHT_LOCKED) {
+	if (m_features == EKernelFeatures::HEIGHT_LOCKED || m_features == EKernelFeatures::NO_RECENT_DUPLICATE) {
 		features_attrs_json["lock_height"] = GetLockHeight();
 	}
 
-- 
2.43.0


From cd8de808267495eaa9e924a3aa394faf025ad13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 18/67] fix: read the fee shift back from JSON

---
 include/Core/Models/Fee.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Core/Models/Fee.h b/include/Core/Models/Fee.h
index b1a5ae2..15d7c7f 100644
--- a/include/Core/Models/Fee.h
+++ b/include/Core/Models/Fee.h
@@ -62,7 +62,11 @@ public:
 
 	static Fee FromJSON(const Json::Value& json)
 	{
-		return Fee::From(JsonUtil::ConvertToUInt64(json));
+		Serializer serializer;
+		serializer.Append<uint64_t>(JsonUtil::ConvertToUInt64(json));
+
+		ByteBuffer buffer(serializer.GetBytes());
+		return Fee::Deserialize(buffer);
 	}
 
 private:
-- 
2.43.0


From 7d664ae9220b4535fdad259ac1b7f8f2243c9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 19/67] fix: keep the text of a received error message alive

---
 src/P2P/Messages/ErrorMessage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Messages/ErrorMessage.h b/src/P2P/Messages/ErrorMessage.h
index f0a92f5..b49189d 100644
--- a/src/P2P/Messages/ErrorMessage.h
+++ b/src/P2P/Messages/ErrorMessage.h
@@ -62,5 +62,5 @@ private:
 	const uint32_t m_errorCode; // TODO: Create EErrorType enum
 
 	// Error Message
-	const std::string& m_message;
+	const std::string m_message;
 };
\ No newline at end of file
-- 
2.43.0


From e2429b8fe65f492d80be3581c6ef38b0d3ed2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 20/67] fix: write the short ids of a compact block into its
 inputs list

---
 src/Core/Models/CompactBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/Models/CompactBlock.cpp b/src/Core/Models/CompactBlock.cpp
index f96291b..8761fc5 100644
--- a/src/Core/Models/CompactBlock.cpp
+++ b/src/Core/Models/CompactBlock.cpp
@@ -79,7 +79,7 @@ Json::Value CompactBlock::ToJSON() const
 	Json::Value inputsNode;
 	for (const ShortId& shortId : GetShortIds())
 	{
-		json.append(shortId.GetId().ToHex());
+		inputsNode.append(shortId.GetId().ToHex());
 	}
 	json["inputs"] = inputsNode;
 
-- 
2.43.0


From 830a097c6969e348ddc579048d02ccc1bcfc7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 21/67] fix: accept only version 3 onion addresses

---
 src/Net/Tor/TorAddressParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Net/Tor/TorAddressParser.cpp b/src/Net/Tor/TorAddressParser.cpp
index 875875a..68635d3 100644
--- a/src/Net/Tor/TorAddressParser.cpp
+++ b/src/Net/Tor/TorAddressParser.cpp
@@ -98,7 +98,7 @@ std::optional<TorAddress> TorAddressParser::Parse(const std::string& address)
 		}
 
 		ed25519_public_key_t publicKey = CBigInteger<32>(std::move(pubkey));
-		if (IsValid(version, publicKey, checksum)) {
+		if (version == 3 && IsValid(version, publicKey, checksum)) {
 			return std::make_optional<TorAddress>(address, publicKey, version);
 		}
 	}
-- 
2.43.0


From 69b8c4be5e105e51ef8c990b81f442aa3c83def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 22/67] fix: drop a transaction whose processing throws instead
 of retrying it forever

---
 src/P2P/Pipeline/TransactionPipe.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/P2P/Pipeline/TransactionPipe.cpp b/src/P2P/Pipeline/TransactionPipe.cpp
index ee38946..22071a8 100644
--- a/src/P2P/Pipeline/TransactionPipe.cpp
+++ b/src/P2P/Pipeline/TransactionPipe.cpp
@@ -69,6 +69,9 @@ void TransactionPipe::Thread_ProcessTransactions(TransactionPipe& pipeline)
 		catch (std::exception& e)
 		{
 			LOG_ERROR_F("Exception caught: {}", e.what());
+
+			// Don't retry the transaction that failed forever.
+			pipeline.m_transactionsToProcess.pop_front(1);
 		}
 	}
 
-- 
2.43.0


From d2bd11c46564f087115b704a2a3d52454745ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 23/67] fix: reconcile the transaction pool only with blocks
 that join the confirmed chain

---
 src/BlockChain/Processors/BlockProcessor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index d429276..dc049b8 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -77,6 +77,11 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 
 		ValidateAndAddBlock(block, pBatch);
 		pConfirmedChain->AddBlock(block.GetHash(), block.GetHeight());
+		pBatch->GetTransactionPool()->ReconcileBlock(
+			pBatch->GetBlockDB(),
+			pBatch->GetTxHashSetManager()->GetTxHashSet(),
+			block
+		);
 		pBatch->Commit();
 	}
 
@@ -162,6 +167,7 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 		for (const FullBlock::CPtr& pBlock : reorgBlocks)
 		{
 			pConfirmedChain->AddBlock(pBlock->GetHash(), pBlock->GetHeight());
+			pBatch->GetTransactionPool()->ReconcileBlock(pBlockDB, pTxHashSet, *pBlock);
 		}
 
 		pBatch->Commit();
@@ -186,7 +192,6 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 	auto pOrphanPool = pBatch->GetOrphanPool();
 	auto pBlockDB = pBatch->GetBlockDB();
 	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
-	auto pTxPool = pBatch->GetTransactionPool();
 
 	const Hash& previousHash = block.GetPreviousHash();
 	auto pPreviousHeader = pBlockDB->GetBlockHeader(previousHash);
@@ -221,5 +226,4 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 	pBlockDB->AddBlockSums(block.GetHash(), blockSums);
 	pBlockDB->AddBlock(block);
 	pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
-	pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, block);
 }
\ No newline at end of file
-- 
2.43.0


From b2d70ebca0f20548691e84ce820077ad40d5eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 24/67] fix: report failed truncation and writes of append-only
 files

---
 src/Core/File/MappedFile_Nix.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Core/File/MappedFile_Nix.cpp b/src/Core/File/MappedFile_Nix.cpp
index 003beeb..66a4f41 100644
--- a/src/Core/File/MappedFile_Nix.cpp
+++ b/src/Core/File/MappedFile_Nix.cpp
@@ -43,7 +43,11 @@ bool MappedFile::Write(const size_t startIndex, const std::vector<uint8_t>& data
 
 	Unmap();
 
-	FileUtil::TruncateFile(m_path, startIndex);
+	if (!FileUtil::TruncateFile(m_path, startIndex))
+	{
+		LOG_ERROR_F("Failed to truncate file: {}", m_path);
+		return false;
+	}
 
 	if (!data.empty())
 	{
@@ -57,6 +61,11 @@ bool MappedFile::Write(const size_t startIndex, const std::vector<uint8_t>& data
 		file.seekp(startIndex, std::ios::beg);
 		file.write((const char*)data.data(), data.size());
 		file.close();
+		if (file.fail())
+		{
+			LOG_ERROR_F("Failed to write file: {}", m_path);
+			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 2f5dae35b44e95fcc2e59ab1982255ec22c11fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 25/67] fix: report failed writes of bitmap files

---
 include/Core/File/BitmapFile.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Core/File/BitmapFile.h b/include/Core/File/BitmapFile.h
index b58bf2c..ada0859 100644
--- a/include/Core/File/BitmapFile.h
+++ b/include/Core/File/BitmapFile.h
@@ -64,12 +64,14 @@ public:
 			}
 
 			file.close();
+			const bool written = !file.fail();
 
 			std::error_code error;
 			m_mmap = mio::make_mmap_source(MPATH_STR, error);
-			if (error.value() != 0)
+			if (!written || error.value() != 0)
 			{
-				// TODO: Handle this
+				LOG_ERROR_F("Failed to write bitmap file: {}", m_path);
+				throw FILE_EXCEPTION_F("Failed to write bitmap file: {}", m_path);
 			}
 
 			m_modifiedBytes.clear();
-- 
2.43.0


From 70ab14ba6b23ab76f5e5bc3e4f52db502fc914fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 26/67] fix: report a failed commit when writing several
 database entries

---
 src/Database/RocksDB/RocksDB.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Database/RocksDB/RocksDB.h b/src/Database/RocksDB/RocksDB.h
index a959524..98e73e3 100644
--- a/src/Database/RocksDB/RocksDB.h
+++ b/src/Database/RocksDB/RocksDB.h
@@ -172,7 +172,12 @@ public:
 		}
 
 		if (pTempTransaction != nullptr) {
-			pTempTransaction->Commit();
+			status = pTempTransaction->Commit();
+			if (!status.ok())
+			{
+				LOG_ERROR_F("Error while committing to table {}. Error: {}", table, status.getState());
+				throw DATABASE_EXCEPTION("Put Failed");
+			}
 		}
 	}
 
-- 
2.43.0


From ec40ec597d6bd4f782fc442e1dbab6e32afe5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 27/67] fix: close a stale TxHashSet through the lock already
 held at startup

---
 src/BlockChain/BlockChainImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index d1f97ed..e602526 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -95,7 +95,7 @@ std::shared_ptr<BlockChain> BlockChain::Create(
 		if (pTxHashSet != nullptr) {
 			const uint64_t horizon = Consensus::GetHorizonHeight(pChainState->Read()->GetHeight(EChainType::CONFIRMED));
 			if (pTxHashSet->GetFlushedBlockHeader()->GetHeight() < horizon) {
-				pTxHashSetManager->Write()->Close();
+				pBatchTxHashSet->Close();
 			} else {
 				pTxHashSet->Compact();
 			}
-- 
2.43.0


From fba64b8a301bbb0864cd472952bcc4c67cb9c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 28/67] fix: hand TxHashSet commit failures back to the caller
 instead of terminating

---
 src/PMMR/TxHashSetImpl.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 36048d8..0f5f18a 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -11,7 +11,7 @@
 #include <Database/BlockDb.h>
 #include <Common/Logger.h>
 #include <P2P/SyncStatus.h>
-#include <thread>
+#include <future>
 
 TxHashSet::TxHashSet(
 	std::shared_ptr<KernelMMR> pKernelMMR,
@@ -369,11 +369,14 @@ void TxHashSet::Rewind(std::shared_ptr<IBlockDB> pBlockDB, const BlockHeader& he
 
 void TxHashSet::Commit()
 {
-	std::vector<std::thread> threads;
-	threads.emplace_back(std::thread([this] { this->m_pKernelMMR->Commit(); }));
-	threads.emplace_back(std::thread([this] { this->m_pOutputPMMR->Commit(); }));
-	threads.emplace_back(std::thread([this] { this->m_pRangeProofPMMR->Commit(); }));
-	ThreadUtil::JoinAll(threads);
+	// Futures (unlike threads) hand exceptions back to the caller.
+	std::vector<std::future<void>> tasks;
+	tasks.emplace_back(std::async(std::launch::async, [this] { this->m_pKernelMMR->Commit(); }));
+	tasks.emplace_back(std::async(std::launch::async, [this] { this->m_pOutputPMMR->Commit(); }));
+	tasks.emplace_back(std::async(std::launch::async, [this] { this->m_pRangeProofPMMR->Commit(); }));
+	for (auto& task : tasks) {
+		task.get();
+	}
 
 	m_pBlockHeaderBackup = m_pBlockHeader;
 }
-- 
2.43.0


From 0c3dd07835f5ea5eeec99ec2d03a2e74799a860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 29/67] fix: read the kernel feature arguments of a JSON slate

---
 include/Wallet/Models/Slate/SlateFeatureArgs.h | 2 +-
 src/Wallet/Models/Slate/Slate.cpp              | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Wallet/Models/Slate/SlateFeatureArgs.h b/include/Wallet/Models/Slate/SlateFeatureArgs.h
index 9d35bd6..7535906 100644
--- a/include/Wallet/Models/Slate/SlateFeatureArgs.h
+++ b/include/Wallet/Models/Slate/SlateFeatureArgs.h
@@ -18,7 +18,7 @@ struct SlateFeatureArgs
         return json;
     }
 
-    SlateFeatureArgs FromJSON(const Json::Value& json)
+    static SlateFeatureArgs FromJSON(const Json::Value& json)
     {
         SlateFeatureArgs args;
         args.lockHeightOpt = JsonUtil::GetUInt64Opt(json, "lock_hgt");
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 9c9d62c..2c0637f 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -387,7 +387,12 @@ Slate Slate::FromJSON(const Json::Value& json)
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
 	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
-	// TODO: Feat args
+
+	auto feat_args_json_opt = JsonUtil::GetOptionalField(json, "feat_args");
+	if (feat_args_json_opt.has_value()) {
+		slate.featureArgsOpt = SlateFeatureArgs::FromJSON(feat_args_json_opt.value());
+	}
+
 	slate.ttl = JsonUtil::GetUInt64Opt(json, "ttl").value_or(0);
 
 	std::vector<Json::Value> sigs = JsonUtil::GetRequiredArray(json, "sigs");
-- 
2.43.0


From 6017277fe426b58fbfbeb01f633c1cf125baffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 30/67] fix: bound the counts of PMMR segments by the bytes
 received

---
 include/PMMR/Common/Segment.h      | 8 ++++++++
 include/PMMR/Common/SegmentProof.h | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/PMMR/Common/Segment.h b/include/PMMR/Common/Segment.h
index 6d85823..5828495 100644
--- a/include/PMMR/Common/Segment.h
+++ b/include/PMMR/Common/Segment.h
@@ -94,6 +94,10 @@ public:
     {
         SegmentIdentifier segmentId = SegmentIdentifier::Deserialize(byteBuffer);
         const uint64_t numHashes = byteBuffer.Read<uint64_t>();
+        if (numHashes > byteBuffer.GetRemainingSize() / (sizeof(uint64_t) + 32)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment can't contain {} hashes", numHashes);
+        }
+
         std::vector<uint64_t> hashPos(numHashes);
         for (uint64_t i = 0; i < numHashes; ++i) {
             hashPos[i] = byteBuffer.Read<uint64_t>();
@@ -104,6 +108,10 @@ public:
             hashes.push_back(byteBuffer.ReadBigInteger<32>());
         }
         const uint64_t numLeaves = byteBuffer.Read<uint64_t>();
+        if (numLeaves > byteBuffer.GetRemainingSize() / sizeof(uint64_t)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment can't contain {} leaves", numLeaves);
+        }
+
         std::vector<uint64_t> leafPos(numLeaves);
         for (uint64_t i = 0; i < numLeaves; ++i) {
             leafPos[i] = byteBuffer.Read<uint64_t>();
diff --git a/include/PMMR/Common/SegmentProof.h b/include/PMMR/Common/SegmentProof.h
index 6495ab7..d531a3c 100644
--- a/include/PMMR/Common/SegmentProof.h
+++ b/include/PMMR/Common/SegmentProof.h
@@ -51,6 +51,10 @@ public:
 	static SegmentProof Deserialize(ByteBuffer& byteBuffer)
 	{
 		const uint64_t size = byteBuffer.Read<uint64_t>();
+		if (size > byteBuffer.GetRemainingSize() / 32) {
+			throw DESERIALIZATION_EXCEPTION_F("Segment proof can't contain {} hashes", size);
+		}
+
 		std::vector<Hash> hashes;
 		hashes.reserve(size);
 		for (uint64_t i = 0; i < size; ++i) {
-- 
2.43.0


From 19a33a421f650be34e29ab92bf80b6f4468afb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 31/67] fix: decrypting a ciphertext shorter than its tag read
 out of bounds

---
 include/Crypto/ChaChaPoly.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Crypto/ChaChaPoly.h b/include/Crypto/ChaChaPoly.h
index e28e7df..80e0813 100644
--- a/include/Crypto/ChaChaPoly.h
+++ b/include/Crypto/ChaChaPoly.h
@@ -77,7 +77,9 @@ public:
 
     std::vector<uint8_t> Decrypt(const CBigInteger<12>& nonce, const std::vector<uint8_t>& encrypted)
     {
-        assert(encrypted.size() > TAG_SIZE);
+        if (encrypted.size() <= TAG_SIZE) {
+            throw CryptoException("Ciphertext too short");
+        }
 
         const size_t encrypted_len = encrypted.size() - TAG_SIZE;
         std::vector<uint8_t> ciphertext(encrypted.cbegin(), encrypted.cbegin() + encrypted_len);
-- 
2.43.0


From 54af731cdc05852cd5e83e1196ed8c82099d803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 32/67] fix: an HTTP request allocated whatever body length its
 header claimed

---
 src/Net/Util/HTTPUtil.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Net/Util/HTTPUtil.cpp b/src/Net/Util/HTTPUtil.cpp
index 6de2c43..e142643 100644
--- a/src/Net/Util/HTTPUtil.cpp
+++ b/src/Net/Util/HTTPUtil.cpp
@@ -5,6 +5,7 @@
 #include <Core/Exceptions/DeserializationException.h>
 #include <Common/Compat.h>
 
+#include <algorithm>
 #include <civetweb.h>
 
 // Strips away the base URI and any query strings.
@@ -109,13 +110,19 @@ std::optional<Json::Value> HTTPUtil::GetRequestBody(mg_connection* conn)
 		return std::nullopt;
 	}
 
+	// content_length is whatever the client claims, so only allocate as the data arrives.
 	std::string requestBody;
-	requestBody.resize(contentLength);
-
-	const int bytesRead = mg_read(conn, requestBody.data(), contentLength);
-	if (bytesRead != contentLength)
+	char chunk[16 * 1024];
+	while ((long long)requestBody.size() < contentLength)
 	{
-		throw HTTPException();
+		const long long remaining = contentLength - (long long)requestBody.size();
+		const int bytesRead = mg_read(conn, chunk, (size_t)(std::min)(remaining, (long long)sizeof(chunk)));
+		if (bytesRead <= 0)
+		{
+			throw HTTPException();
+		}
+
+		requestBody.append(chunk, (size_t)bytesRead);
 	}
 
 	Json::Value json;
-- 
2.43.0


From 3387d80b505f5876a2655b52c8c1f77ba0ca7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 33/67] fix: remember the ban of a peer that was not contacted
 for a week

---
 src/P2P/Seed/PeerManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 5c92ef9..bb65d89 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -85,7 +85,7 @@ void PeerManager::Thread_ManagePeers(PeerManager& peerManager)
                 {
                     peersToUpdate.push_back(peerEntry.m_peer);
                     peerEntry.m_peer->SetDirty(false);
-                } else if (peerEntry.m_peer->GetLastContactTime() > 0 && peerEntry.m_peer->GetLastContactTime() < minimumContactTime)
+                } else if (!peerEntry.m_peer->IsBanned() && peerEntry.m_peer->GetLastContactTime() > 0 && peerEntry.m_peer->GetLastContactTime() < minimumContactTime)
                 {
                     peersToDelete.push_back(peerEntry.m_peer);
                 }
-- 
2.43.0


From c27765def0699ce0af705dfe4b1a29c670887908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 34/67] fix: keep accepting connections after accept itself
 fails

---
 src/P2P/Seed/Seeder.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/P2P/Seed/Seeder.cpp b/src/P2P/Seed/Seeder.cpp
index c64e8d0..303c2c4 100644
--- a/src/P2P/Seed/Seeder.cpp
+++ b/src/P2P/Seed/Seeder.cpp
@@ -123,13 +123,19 @@ void Seeder::Accept(const asio::error_code& ec)
 {
     std::unique_lock<std::mutex> lock(m_mutex);
     
-    if (ec) return;
-    
-    try {
-        AcceptConnection();
-    }
-    catch (std::exception& e) {
-        LOG_WARNING_F("Failed to accept connection: {}", e.what());
+    if (ec == asio::error::operation_aborted) return;
+
+    if (!ec) {
+        try {
+            AcceptConnection();
+        }
+        catch (std::exception& e) {
+            LOG_WARNING_F("Failed to accept connection: {}", e.what());
+        }
+    } else {
+        // Running out of file descriptors, for example, passes. Keep listening.
+        LOG_WARNING_F("Failed to accept connection: {}", ec.message());
+        ThreadUtil::SleepFor(std::chrono::milliseconds(100));
     }
 
     m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
-- 
2.43.0


From af96fb2010dd9ef7bf0d470b4238c70c2b1bc7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 35/67] fix: keep the orphan block thread alive when processing
 an orphan throws

---
 src/P2P/Pipeline/BlockPipe.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/BlockPipe.cpp b/src/P2P/Pipeline/BlockPipe.cpp
index 2621c44..380f35b 100644
--- a/src/P2P/Pipeline/BlockPipe.cpp
+++ b/src/P2P/Pipeline/BlockPipe.cpp
@@ -88,7 +88,18 @@ void BlockPipe::Thread_PostProcessBlocks(BlockPipe& pipeline)
 
 	while (!pipeline.m_terminate && Global::IsRunning())
 	{
-		if (!pipeline.m_pBlockChain->ProcessNextOrphanBlock())
+		bool processed = false;
+
+		try
+		{
+			processed = pipeline.m_pBlockChain->ProcessNextOrphanBlock();
+		}
+		catch (std::exception& e)
+		{
+			LOG_ERROR_F("Exception ({}) caught while attempting to process next orphan block.", e.what());
+		}
+
+		if (!processed)
 		{
 			ThreadUtil::SleepFor(std::chrono::milliseconds(5));
 		}
-- 
2.43.0


From 58766e61b7c141fef7379e3d9967804bb31c13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 36/67] fix: keep the ping thread alive when pinging one peer
 throws

---
 src/P2P/ConnectionManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index 4ac6de9..1860726 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -268,7 +268,12 @@ void ConnectionManager::ThreadPing(ConnectionManager& connectionManager)
 	{
 		auto connections = *connectionManager.m_connections.Read().GetShared();
 		for (const ConnectionPtr& pConnection : connections) {
-			pConnection->CheckPing();
+			try {
+				pConnection->CheckPing();
+			}
+			catch (std::exception& e) {
+				LOG_WARNING_F("Failed to ping {}: {}", pConnection->GetIPAddress(), e.what());
+			}
 		}
 
 		ThreadUtil::SleepFor(std::chrono::seconds(2));
-- 
2.43.0


From c87b438ab078cfebbbeb03cd3dd4c29c3d8653a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 37/67] fix: roll back a wallet transaction whose commit
 failed, and survive a failing rollback

---
 src/Wallet/WalletDB/Sqlite/SqliteTransaction.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h b/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
index 83be377..99f2abe 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
+++ b/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
@@ -38,9 +38,10 @@ public:
 			throw WALLET_STORE_EXCEPTION("Tried to commit a closed transaction.");
 		}
 
-		m_open = false;
-
 		m_pDatabase->Execute("COMMIT;");
+
+		// Only now. When the commit fails, the transaction still has to be rolled back.
+		m_open = false;
 	}
 
 	void Rollback() noexcept
@@ -52,7 +53,13 @@ public:
 
 		m_open = false;
 
-		m_pDatabase->Execute("ROLLBACK;");
+		try {
+			m_pDatabase->Execute("ROLLBACK;");
+		}
+		catch (std::exception& e) {
+			// Sqlite rolls back by itself after some errors, and then refuses to do so again.
+			WALLET_WARNING_F("Failed to rollback transaction: {}", e.what());
+		}
 	}
 
 private:
-- 
2.43.0


From fa2fd275de1163b44c46ca2513a8a011db1ac315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 38/67] fix: survive a failing lookup when asked for a
 txhashset, and talk to the peer again after it

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index e612f4b..294434a 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -177,17 +177,20 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 	std::shared_ptr<Connection> pConnection,
 	Hash block_hash)
 {
-	auto pHeader = pBlockChain->GetBlockHeaderByHash(block_hash);
-	if (pHeader == nullptr) {
-		return;
-	}
-
+	BlockHeaderPtr pHeader = nullptr;
 	fs::path zipFilePath;
 
 	try {
+		pHeader = pBlockChain->GetBlockHeaderByHash(block_hash);
+		if (pHeader == nullptr) {
+			pConnection->DisableSends(false);
+			return;
+		}
+
 		zipFilePath = pBlockChain->SnapshotTxHashSet(pHeader);
 	}
 	catch (std::exception&) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -197,6 +200,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 	std::ifstream file(zipFilePath, std::ios::in | std::ios::ate | std::ios::binary);
 	if (!file.is_open()) {
 		FileUtil::RemoveFile(zipFilePath);
+		pConnection->DisableSends(false);
 		return;
 	}
 
-- 
2.43.0


From 24d88cd05adb08ed9f53901b0a555ece9a9fe248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 39/67] fix: answer an HTTP request whose handling throws
 instead of terminating the node

---
 src/Server/Node/API/ServerAPI.cpp | 37 +++++++++++++++++++++++++------
 src/Server/Node/API/ServerAPI.h   |  2 ++
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/Server/Node/API/ServerAPI.cpp b/src/Server/Node/API/ServerAPI.cpp
index 7d11b73..be1b28e 100644
--- a/src/Server/Node/API/ServerAPI.cpp
+++ b/src/Server/Node/API/ServerAPI.cpp
@@ -24,8 +24,13 @@
 */
 int ServerAPI::V1_Handler(struct mg_connection* conn, void*)
 {
-	if (HTTPUtil::GetHTTPMethod(conn) == HTTP::EHTTPMethod::GET)
+	try
 	{
+		if (HTTPUtil::GetHTTPMethod(conn) != HTTP::EHTTPMethod::GET)
+		{
+			return HTTPUtil::BuildNotFoundResponse(conn, "Not Found");
+		}
+
 		Json::Value json;
 		json.append("GET /v1/blocks/<hash>?compact");
 		json.append("GET /v1/blocks/<height>?compact");
@@ -46,16 +51,27 @@ int ServerAPI::V1_Handler(struct mg_connection* conn, void*)
 
 		return HTTPUtil::BuildSuccessResponse(conn, json.toStyledString());
 	}
-	else
+	catch (std::exception&)
 	{
+		// Neither GET nor POST
 		return HTTPUtil::BuildNotFoundResponse(conn, "Not Found");
 	}
 }
 
 int ServerAPI::GetStatus_Handler(struct mg_connection* conn, void* pNodeContext)
 {
-	NodeContext* pServer = (NodeContext*)pNodeContext;
-	
+	try
+	{
+		return GetStatus(conn, (NodeContext*)pNodeContext);
+	}
+	catch (std::exception& e)
+	{
+		return HTTPUtil::BuildInternalErrorResponse(conn, e.what());
+	}
+}
+
+int ServerAPI::GetStatus(struct mg_connection* conn, NodeContext* pServer)
+{
 	auto pTip = pServer->m_pBlockChain->GetTipBlockHeader(EChainType::CONFIRMED);
 	if (pTip == nullptr)
 	{
@@ -135,8 +151,15 @@ int ServerAPI::ResyncChain_Handler(struct mg_connection* conn, void* pNodeContex
 {
 	NodeContext* pServer = (NodeContext*)pNodeContext;
 
-	pServer->m_pBlockChain->ResyncChain();
-	pServer->m_pP2PServer->UnbanAllPeers();
+	try
+	{
+		pServer->m_pBlockChain->ResyncChain();
+		pServer->m_pP2PServer->UnbanAllPeers();
 
-	return HTTPUtil::BuildSuccessResponse(conn, "");
+		return HTTPUtil::BuildSuccessResponse(conn, "");
+	}
+	catch (std::exception& e)
+	{
+		return HTTPUtil::BuildInternalErrorResponse(conn, e.what());
+	}
 }
\ No newline at end of file
diff --git a/src/Server/Node/API/ServerAPI.h b/src/Server/Node/API/ServerAPI.h
index b7db1d9..cd5a4ab 100644
--- a/src/Server/Node/API/ServerAPI.h
+++ b/src/Server/Node/API/ServerAPI.h
@@ -5,6 +5,7 @@
 // Forward Declarations
 struct mg_connection;
 class SyncStatus;
+struct NodeContext;
 
 class ServerAPI
 {
@@ -14,5 +15,6 @@ public:
 	static int ResyncChain_Handler(struct mg_connection* conn, void* pNodeContext);
 
 private:
+	static int GetStatus(struct mg_connection* conn, NodeContext* pServer);
 	static std::string GetStatusString(const SyncStatus& syncStatus);
 };
\ No newline at end of file
-- 
2.43.0


From 3757b9b5cc9909b711e61583378e33ab246c0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 40/67] fix: report a txhashset file that cannot be opened
 instead of terminating the node

---
 src/PMMR/TxHashSetManager.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/PMMR/TxHashSetManager.cpp b/src/PMMR/TxHashSetManager.cpp
index 40a0fb5..8696643 100644
--- a/src/PMMR/TxHashSetManager.cpp
+++ b/src/PMMR/TxHashSetManager.cpp
@@ -10,7 +10,7 @@
 #include <Common/Logger.h>
 
 #include <filesystem.h>
-#include <thread>
+#include <future>
 
 TxHashSetManager::TxHashSetManager(const Config& config)
 	: m_config(config), m_pTxHashSet(nullptr)
@@ -26,21 +26,20 @@ std::shared_ptr<ITxHashSet> TxHashSetManager::Open(const BlockHeaderPtr& pConfir
 	std::shared_ptr<OutputPMMR> pOutputPMMR;
 	std::shared_ptr<RangeProofPMMR> pRangeProofPMMR;
 
-	std::vector<std::thread> threads;
-	threads.emplace_back(std::thread([this, &pKernelMMR] {
+	std::vector<std::future<void>> tasks;
+	tasks.emplace_back(std::async(std::launch::async, [this, &pKernelMMR] {
 		pKernelMMR = KernelMMR::Load(Global::GetConfig().GetTxHashSetPath());
 	}));
-	threads.emplace_back(std::thread([this, &pOutputPMMR] {
+	tasks.emplace_back(std::async(std::launch::async, [this, &pOutputPMMR] {
 		pOutputPMMR = OutputPMMR::Load(Global::GetConfig().GetTxHashSetPath());
 	}));
-	threads.emplace_back(std::thread([this, &pRangeProofPMMR] {
+	tasks.emplace_back(std::async(std::launch::async, [this, &pRangeProofPMMR] {
 		pRangeProofPMMR = RangeProofPMMR::Load(Global::GetConfig().GetTxHashSetPath());
 	}));
 
-	for (auto& thread : threads) {
-		if (thread.joinable()) {
-			thread.join();
-		}
+	// Waits for all of them. What one of them throws is thrown here.
+	for (auto& task : tasks) {
+		task.get();
 	}
 
 	m_pTxHashSet = std::shared_ptr<TxHashSet>(new TxHashSet(pKernelMMR, pOutputPMMR, pRangeProofPMMR, pConfirmedTip));
-- 
2.43.0


From 76f7627e28560907f3bf8bfa8ad990151595194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 41/67] fix: reject a session token whose key has the wrong
 length

---
 src/Wallet/SessionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 3aed8df..2168d11 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -207,7 +207,11 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 	if (iter != m_sessionsById.end())
 	{
 		std::shared_ptr<const LoggedInSession> pSession = iter->second;
-		
+		if (token.GetTokenKey().size() != pSession->m_encryptedSeedWithCS.size())
+		{
+			throw SessionTokenException();
+		}
+
 		std::vector<unsigned char> seedWithCS(pSession->m_encryptedSeedWithCS.size());
 		for (size_t i = 0; i < seedWithCS.size(); i++)
 		{
-- 
2.43.0


From 67aa885afc43aa23186f9cd6b19275984fff3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 42/67] fix: verify the key of a session token before handing
 out or closing its wallet

---
 src/Wallet/SessionManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 2168d11..21b9170 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -192,6 +192,8 @@ void SessionManager::Logout(const SessionToken& token)
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws unless the token's key belongs to the session.
+
 		std::string username = iter->second->m_wallet.Read()->GetUsername();
 		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
 		if (!m_pForeignController->IsListening(username)) {
@@ -239,6 +241,7 @@ Locked<Wallet> SessionManager::GetWallet(const SessionToken& token) const
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws unless the token's key belongs to the session.
 		return iter->second->m_wallet;
 	}
 
@@ -250,6 +253,7 @@ Locked<WalletImpl> SessionManager::GetWalletImpl(const SessionToken& token) cons
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws unless the token's key belongs to the session.
 		return iter->second->m_walletImpl;
 	}
 
-- 
2.43.0


From 91d13f3a69d04969aca232ea7ba2bd76bf31a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 43/67] fix: coin selection must not wrap around when amount
 plus fee exceeds 64 bits

---
 src/Wallet/SlateBuilder/CoinSelection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index 59be1a8..89e5e8a 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -53,7 +53,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingSmallestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee))
+		if (amountFound >= amount && amountFound - amount >= fee)
 		{
 			return selectedCoins;
 		}
@@ -81,7 +81,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingFewestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee)) {
+		if (amountFound >= amount && amountFound - amount >= fee) {
 			return selectedCoins;
 		}
 	}
@@ -105,7 +105,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee)) {
+	if (amountFound >= amount && amountFound - amount >= fee) {
 		return availableCoins;
 	}
 
@@ -134,7 +134,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee))
+	if (amountFound >= amount && amountFound - amount >= fee)
 	{
 		return selectedCoins;
 	}
-- 
2.43.0


From 32d6aaea17f93d78efb5a83f36b694ba48f084c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 44/67] fix: count 256 outputs as 256 when 255 change outputs
 are requested

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 46f5264..a335a62 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -33,7 +33,7 @@ Slate SendSlateBuilder::BuildSendSlate(
 	const std::vector<SlatepackAddress>& recipients) const
 {
 	const uint8_t numChangeOutputs = sendEntireBalance ? 0 : maxChangeOutputs;
-	const uint8_t totalNumOutputs = 1 + numChangeOutputs;
+	const int64_t totalNumOutputs = 1 + (int64_t)numChangeOutputs;
 	const uint64_t numKernels = 1;
 
 	// Select inputs using desired selection strategy.
-- 
2.43.0


From 23de066f6daa52c1bc3b4a26a21a730aae848dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 45/67] fix: do not offer a payment whose fee does not fit the
 kernel's 40 bit fee field

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index a335a62..fd37f05 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -80,6 +80,13 @@ Slate SendSlateBuilder::BuildSendSlate(
 		fee = inputTotal - amountToSend;
 	}
 
+	// Kernels encode fees using only 40 bits.
+	if (fee >= ((uint64_t)1 << 40))
+	{
+		WALLET_ERROR_F("Fee {} is too large", fee);
+		throw WALLET_EXCEPTION_F("Fee {} is too large", fee);
+	}
+
 	return Build(
 		pWallet.GetShared(),
 		masterSeed,
-- 
2.43.0


From 4b2cf0642f6e3bd67c2290b7e4ca3d9d16b9935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 46/67] fix: refuse to finalize a payment that was canceled or
 already finalized

---
 src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index 65e3b6e..a289679 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -20,8 +20,8 @@ std::pair<Slate, Transaction> FinalizeSlateBuilder::Finalize(const Slate& rcvSla
 	// Load original send Slate
 	Slate sendSlate = m_pWallet->GetSlate(finalizeSlate.GetId(), ESlateStage::STANDARD_SENT);
 
-	// Load WalletTx
-	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId());
+	// Load WalletTx. Must not have been canceled or finalized already.
+	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId(), EWalletTxType::SENDING_STARTED);
 
 	// Load private context
 	SlateContextEntity slateContext = m_pWallet->GetSlateContext(finalizeSlate.GetId());
-- 
2.43.0


From 44ad56a3d8b3c3836f2c18dbb2225373060026c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 47/67] fix: refuse to receive a slate again after an earlier
 receipt of it was canceled once

---
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 88c6502..cf32342 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -92,9 +92,13 @@ bool ReceiveSlateBuilder::VerifySlateStatus(
 	const Slate& slate) const
 {
 	// Slate was already received.
-	std::unique_ptr<WalletTx> pWalletTx = pWallet->GetTxBySlateId(masterSeed, slate.GetId());
-	if (pWalletTx != nullptr) {
-		const EWalletTxType status = pWalletTx->GetType();
+	const std::vector<WalletTx> transactions = pWallet->GetDatabase().Read()->GetTransactions(masterSeed);
+	for (const WalletTx& walletTx : transactions) {
+		if (!walletTx.GetSlateId().has_value() || walletTx.GetSlateId().value() != slate.GetId()) {
+			continue;
+		}
+
+		const EWalletTxType status = walletTx.GetType();
 		if (status != EWalletTxType::RECEIVED_CANCELED && status != EWalletTxType::SENDING_STARTED) {
 			WALLET_ERROR_F("Already received slate {}", uuids::to_string(slate.GetId()));
 			return false;
-- 
2.43.0


From 98cc0c41a6b638b473b4dae1dbe68aad3220eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 48/67] fix: reject a proof of work for a graph smaller than
 the network's minimum size

---
 src/PoW/PoWValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index dd2bd6e..749ce57 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -11,6 +11,12 @@
 
 bool PoWValidator::IsPoWValid(const BlockHeader& header, const BlockHeader& previousHeader) const
 {
+    // Only the two networks' graph sizes count: the work of a smaller graph is negligible, and its scaling factor is not defined.
+    if (!header.IsPrimaryPoW() && !header.IsSecondaryPoW()) {
+        LOG_WARNING_F("Edge bits {} too low for block {}", (uint32_t)header.GetEdgeBits(), header);
+        return false;
+    }
+
     // Validate Total Difficulty
     if (header.GetTotalDifficulty() <= previousHeader.GetTotalDifficulty()) {
         LOG_WARNING_F("Target difficulty too low for block {}", header);
-- 
2.43.0


From 95c0a64e79964043dc641db5f5f64287333bfb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 49/67] fix: scale the work of a primary proof by the graph
 weight at its height

---
 src/PoW/PoWValidator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index 749ce57..a927ac8 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -70,7 +70,7 @@ uint64_t PoWValidator::GetMaximumDifficulty(const BlockHeader& header) const
     if (proofOfWork.GetEdgeBits() == Consensus::SECOND_POW_EDGE_BITS) {
         scalingDifficulty = header.GetScalingDifficulty();
     } else {
-        scalingDifficulty = Consensus::ScalingDifficulty(proofOfWork.GetEdgeBits());
+        scalingDifficulty = Consensus::GraphWeight(header.GetHeight(), proofOfWork.GetEdgeBits());
     }
 
     std::vector<uint8_t> temp;
-- 
2.43.0


From 32f780ce237f6d79311851e0fcac81cab825387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 50/67] fix: answer a request for headers from the last locator
 on this chain, not on an abandoned branch

---
 src/P2P/BlockLocator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2P/BlockLocator.cpp b/src/P2P/BlockLocator.cpp
index 900b856..0dbc189 100644
--- a/src/P2P/BlockLocator.cpp
+++ b/src/P2P/BlockLocator.cpp
@@ -84,7 +84,12 @@ BlockHeaderPtr BlockLocator::FindCommonHeader(const std::vector<Hash>& locatorHa
 		auto pHeader = m_pBlockChain->GetBlockHeaderByHash(locatorHash);
 		if (pHeader != nullptr)
 		{
-			return pHeader;
+			// Headers of abandoned branches are still known, but nothing on this chain follows them.
+			auto pChainHeader = m_pBlockChain->GetBlockHeaderByHeight(pHeader->GetHeight(), EChainType::CANDIDATE);
+			if (pChainHeader != nullptr && pChainHeader->GetHash() == locatorHash)
+			{
+				return pHeader;
+			}
 		}
 	}
 
-- 
2.43.0


From b90aa6e5b3e3fba669d5d4e32fd4c9757c1efbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:38 +0000
Subject: [PATCH 51/67] fix: answer requests for a transaction from the public
 pool only, not from the stem pool

---
 src/TxPool/TransactionPoolImpl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index a3a5529..12efd40 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -101,13 +101,8 @@ TransactionPtr TransactionPool::FindTransactionByKernelHash(const Hash& kernelHa
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
-	TransactionPtr pTransaction = m_memPool.FindTransactionByKernelHash(kernelHash);
-	if (pTransaction == nullptr)
-	{
-		pTransaction = m_stemPool.FindTransactionByKernelHash(kernelHash);
-	}
-
-	return pTransaction;
+	// Transactions in the stem pool must not be visible to peers until they're fluffed.
+	return m_memPool.FindTransactionByKernelHash(kernelHash);
 }
 
 void TransactionPool::ReconcileBlock(std::shared_ptr<const IBlockDB> pBlockDB, ITxHashSetConstPtr pTxHashSet, const FullBlock& block)
-- 
2.43.0


From bec5321878c97a2b2693431cd6913148786b0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 52/67] fix: announce a pushed transaction to all peers only
 when it was submitted for fluffing

---
 src/API/Node/Handlers/PushTransactionHandler.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/API/Node/Handlers/PushTransactionHandler.h b/src/API/Node/Handlers/PushTransactionHandler.h
index 665807b..3fe2668 100644
--- a/src/API/Node/Handlers/PushTransactionHandler.h
+++ b/src/API/Node/Handlers/PushTransactionHandler.h
@@ -41,7 +41,10 @@ public:
 		);
 
 		if (status == EBlockChainStatus::SUCCESS) {
-			m_pP2PServer->BroadcastTransaction(pTransaction);
+			// A transaction in its stem phase is only relayed by the Dandelion monitor.
+			if (fluff) {
+				m_pP2PServer->BroadcastTransaction(pTransaction);
+			}
 
 			Json::Value result;
 			result["Ok"] = Json::Value(Json::nullValue);
-- 
2.43.0


From f1fa57a7576a1f0caea7cc24b400066c8aadf2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 53/67] fix: answer a failed RPC request with its own id

---
 include/Net/Servers/RPC/RPCServer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Net/Servers/RPC/RPCServer.h b/include/Net/Servers/RPC/RPCServer.h
index abb8a5b..db51676 100644
--- a/include/Net/Servers/RPC/RPCServer.h
+++ b/include/Net/Servers/RPC/RPCServer.h
@@ -126,7 +126,7 @@ private:
 		{
 			RPC_LOG_ERROR_F(instance.m_logFile, "RPCException occurred: {}", e.what());
 			return RPC::Response::BuildError(
-				e.GetId().value_or(Json::nullValue),
+				id.isNull() ? e.GetId().value_or(Json::nullValue) : id,
 				RPC::ErrorCode::INVALID_REQUEST,
 				e.what()
 			);
-- 
2.43.0


From 8236781bb1aa77a29f556a23c4bfc231c585d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:21 +0000
Subject: [PATCH 54/67] fix: do not start a queued onion service that was
 removed in the meantime

---
 src/Net/Tor/TorProcess.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Net/Tor/TorProcess.cpp b/src/Net/Tor/TorProcess.cpp
index 6145b9c..0ef790a 100644
--- a/src/Net/Tor/TorProcess.cpp
+++ b/src/Net/Tor/TorProcess.cpp
@@ -183,6 +183,16 @@ bool TorProcess::RemoveListener(const TorAddress& torAddress)
 			m_activeServices.erase(iter);
 		}
 
+		// The service may still be waiting to be added (or retried).
+		const size_t size = m_servicesToAdd.size();
+		std::vector<std::pair<ed25519_secret_key_t, uint16_t>> services_to_add = m_servicesToAdd.copy_front(size);
+		m_servicesToAdd.pop_front(size);
+		for (const auto& service : services_to_add) {
+			if (TorAddressParser::FromPubKey(ED25519::CalculatePubKey(service.first)) != torAddress) {
+				m_servicesToAdd.push_back(service);
+			}
+		}
+
 		if (m_pControl != nullptr) {
 			return m_pControl->DelOnion(torAddress);
 		}
-- 
2.43.0


From c6a6a08aa570a6f20928ee926ca232e18cacebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:41 +0000
Subject: [PATCH 55/67] fix: do not wait for a wallet's listener while holding
 the session lock

---
 src/Wallet/ForeignController.cpp | 11 +++++++----
 src/Wallet/ForeignController.h   |  8 ++++++--
 src/Wallet/SessionManager.cpp    |  8 ++++++--
 src/Wallet/SessionManager.h      |  4 +++-
 src/Wallet/WalletManagerImpl.cpp |  4 +++-
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/Wallet/ForeignController.cpp b/src/Wallet/ForeignController.cpp
index d5a7c11..4a57d55 100644
--- a/src/Wallet/ForeignController.cpp
+++ b/src/Wallet/ForeignController.cpp
@@ -57,28 +57,31 @@ std::pair<uint16_t, std::optional<TorAddress>> ForeignController::StartListener(
 
 	auto response = std::make_pair(pServer->GetPortNumber(), pServer->GetTorAddress());
 
-	m_contextsByUsername[username] = std::make_unique<Context>(std::move(pServer));
+	m_contextsByUsername[username] = std::make_shared<Context>(std::move(pServer));
 
 	return response;
 }
 
-bool ForeignController::StopListener(const std::string& username)
+std::shared_ptr<void> ForeignController::StopListener(const std::string& username)
 {
 	std::unique_lock<std::mutex> lock(m_contextsMutex);
 
 	auto iter = m_contextsByUsername.find(username);
 	if (iter == m_contextsByUsername.end())
 	{
-		return false;
+		return nullptr;
 	}
 
+	std::shared_ptr<void> pStopped = nullptr;
+
 	iter->second->m_numReferences--;
 	if (iter->second->m_numReferences == 0)
 	{
+		pStopped = std::move(iter->second);
 		m_contextsByUsername.erase(iter);
 	}
 
-	return true;
+	return pStopped;
 }
 
 bool ForeignController::IsListening(const std::string& username)
diff --git a/src/Wallet/ForeignController.h b/src/Wallet/ForeignController.h
index 20d1c90..9bc845f 100644
--- a/src/Wallet/ForeignController.h
+++ b/src/Wallet/ForeignController.h
@@ -2,6 +2,7 @@
 
 #include <Net/Tor/TorProcess.h>
 #include <unordered_map>
+#include <memory>
 #include <optional>
 #include <string>
 #include <mutex>
@@ -24,7 +25,10 @@ public:
 		const KeyChain& keyChain,
 		const int currentAddressIndex
 	);
-	bool StopListener(const std::string& username);
+
+	// Returns the listener if it is no longer needed. Destroying it waits for the requests it is still processing,
+	// so callers must release any lock those requests may need first.
+	std::shared_ptr<void> StopListener(const std::string& username);
 
 	bool IsListening(const std::string& username);
 
@@ -34,5 +38,5 @@ private:
 	IWalletManager& m_walletManager;
 
 	mutable std::mutex m_contextsMutex;
-	std::unordered_map<std::string, std::unique_ptr<Context>> m_contextsByUsername;
+	std::unordered_map<std::string, std::shared_ptr<Context>> m_contextsByUsername;
 };
\ No newline at end of file
diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 21b9170..53d3c0f 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -187,20 +187,24 @@ SessionToken SessionManager::Login(
 	return token;
 }
 
-void SessionManager::Logout(const SessionToken& token)
+std::shared_ptr<void> SessionManager::Logout(const SessionToken& token)
 {
+	std::shared_ptr<void> pListener = nullptr;
+
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
 		GetSeed(token); // Throws unless the token's key belongs to the session.
 
 		std::string username = iter->second->m_wallet.Read()->GetUsername();
-		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
+		pListener = m_pForeignController->StopListener(username);
 		if (!m_pForeignController->IsListening(username)) {
 			m_pWalletDB->CloseWallet(username);
 		}
 		m_sessionsById.erase(iter);
 	}
+
+	return pListener;
 }
 
 SecureVector SessionManager::GetSeed(const SessionToken& token) const
diff --git a/src/Wallet/SessionManager.h b/src/Wallet/SessionManager.h
index 22e2981..076f296 100644
--- a/src/Wallet/SessionManager.h
+++ b/src/Wallet/SessionManager.h
@@ -46,7 +46,9 @@ public:
 		const std::string& username,
 		const SecureVector& seed
 	);
-	void Logout(const SessionToken& token);
+
+	// Returns the wallet's listener if this was its last session. See ForeignController::StopListener.
+	std::shared_ptr<void> Logout(const SessionToken& token);
 
 	SecureVector GetSeed(const SessionToken& token) const;
 	SecureVector GetSeed(const std::string& username, const SecureString& password) const;
diff --git a/src/Wallet/WalletManagerImpl.cpp b/src/Wallet/WalletManagerImpl.cpp
index 51b2258..a8faf79 100644
--- a/src/Wallet/WalletManagerImpl.cpp
+++ b/src/Wallet/WalletManagerImpl.cpp
@@ -223,7 +223,9 @@ LoginResponse WalletManager::Login(
 
 void WalletManager::Logout(const SessionToken& token)
 {
-	m_sessionManager.Write()->Logout(token);
+	// The listener may be processing a request that needs the session manager,
+	// so it's not destroyed until the session manager is unlocked.
+	std::shared_ptr<void> pListener = m_sessionManager.Write()->Logout(token);
 }
 
 void WalletManager::DeleteWallet(const GrinStr& username, const SecureString& password)
-- 
2.43.0


From c149412a0056deb7afe545bbfa0e8ab7df8d6cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 56/67] fix: withdraw a wallet's current onion service when its
 listener stops

---
 include/API/Wallet/Foreign/ForeignServer.h |  1 +
 src/Wallet/ForeignController.cpp           | 11 +++++++++++
 src/Wallet/ForeignController.h             |  3 +++
 src/Wallet/SessionManager.cpp              |  5 +++++
 src/Wallet/SessionManager.h                |  2 ++
 src/Wallet/WalletManagerImpl.cpp           |  1 +
 6 files changed, 23 insertions(+)

diff --git a/include/API/Wallet/Foreign/ForeignServer.h b/include/API/Wallet/Foreign/ForeignServer.h
index 0874ca7..280b051 100644
--- a/include/API/Wallet/Foreign/ForeignServer.h
+++ b/include/API/Wallet/Foreign/ForeignServer.h
@@ -45,6 +45,7 @@ public:
 
     uint16_t GetPortNumber() const noexcept { return m_pRPCServer->GetPortNumber(); }
     const std::optional<TorAddress>& GetTorAddress() const noexcept { return m_torAddress; }
+    void SetTorAddress(const TorAddress& address) { m_torAddress = std::make_optional(address); }
 
 private:
     static std::optional<TorAddress> AddTorListener(
diff --git a/src/Wallet/ForeignController.cpp b/src/Wallet/ForeignController.cpp
index 4a57d55..8d6373a 100644
--- a/src/Wallet/ForeignController.cpp
+++ b/src/Wallet/ForeignController.cpp
@@ -89,4 +89,15 @@ bool ForeignController::IsListening(const std::string& username)
 	std::unique_lock<std::mutex> lock(m_contextsMutex);
 
 	return m_contextsByUsername.find(username) != m_contextsByUsername.end();
+}
+
+void ForeignController::SetTorAddress(const std::string& username, const TorAddress& address)
+{
+	std::unique_lock<std::mutex> lock(m_contextsMutex);
+
+	auto iter = m_contextsByUsername.find(username);
+	if (iter != m_contextsByUsername.end())
+	{
+		iter->second->m_pServer->SetTorAddress(address);
+	}
 }
\ No newline at end of file
diff --git a/src/Wallet/ForeignController.h b/src/Wallet/ForeignController.h
index 9bc845f..9f1f779 100644
--- a/src/Wallet/ForeignController.h
+++ b/src/Wallet/ForeignController.h
@@ -32,6 +32,9 @@ public:
 
 	bool IsListening(const std::string& username);
 
+	// Replaces the onion service that's removed along with the wallet's listener.
+	void SetTorAddress(const std::string& username, const TorAddress& address);
+
 private:
 	struct Context;
 
diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 53d3c0f..e9b2929 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -240,6 +240,11 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 	throw SessionTokenException();
 }
 
+void SessionManager::SetTorAddress(const SessionToken& token, const TorAddress& address) const
+{
+	m_pForeignController->SetTorAddress(GetWallet(token).Read()->GetUsername(), address);
+}
+
 Locked<Wallet> SessionManager::GetWallet(const SessionToken& token) const
 {
 	auto iter = m_sessionsById.find(token.GetSessionId());
diff --git a/src/Wallet/SessionManager.h b/src/Wallet/SessionManager.h
index 076f296..3a1d828 100644
--- a/src/Wallet/SessionManager.h
+++ b/src/Wallet/SessionManager.h
@@ -53,6 +53,8 @@ public:
 	SecureVector GetSeed(const SessionToken& token) const;
 	SecureVector GetSeed(const std::string& username, const SecureString& password) const;
 
+	void SetTorAddress(const SessionToken& token, const TorAddress& address) const;
+
 	Locked<Wallet> GetWallet(const SessionToken& token) const;
 	Locked<WalletImpl> GetWalletImpl(const SessionToken& token) const;
 
diff --git a/src/Wallet/WalletManagerImpl.cpp b/src/Wallet/WalletManagerImpl.cpp
index a8faf79..0ae512a 100644
--- a/src/Wallet/WalletManagerImpl.cpp
+++ b/src/Wallet/WalletManagerImpl.cpp
@@ -151,6 +151,7 @@ std::optional<TorAddress> WalletManager::AddTorListener(const SessionToken& toke
 	
 	wallet.Write()->SetTorAddress(torAddress);
 	walletImpl.Write()->SetTorAddress(torAddress);
+	m_sessionManager.Read()->SetTorAddress(token, torAddress);
 
 	pTorProcess->AddListener(torKey.secret_key, wallet.Read()->GetListenerPort());
 
-- 
2.43.0


From a3c75e2cbc1fd49505268aa3954dc82ea746b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:00 +0000
Subject: [PATCH 57/67] fix: removing an onion service, as destructors do, does
 not throw

---
 src/Net/Tor/TorProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Net/Tor/TorProcess.cpp b/src/Net/Tor/TorProcess.cpp
index 0ef790a..73e629e 100644
--- a/src/Net/Tor/TorProcess.cpp
+++ b/src/Net/Tor/TorProcess.cpp
@@ -197,7 +197,7 @@ bool TorProcess::RemoveListener(const TorAddress& torAddress)
 			return m_pControl->DelOnion(torAddress);
 		}
 	}
-	catch (const TorException& e)
+	catch (const std::exception& e)
 	{
 		LOG_ERROR_F("Failed to remove listener: {}", e.what());
 	}
-- 
2.43.0


From 2c23a1f12d6d1c774ea2da084c3cba33ec4fe71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 58/67] fix: prune connections without holding the list of
 connections while disconnecting

---
 src/P2P/ConnectionManager.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index 1860726..fa3de4f 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -192,16 +192,12 @@ void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 {
 	auto connectionsWriter = m_connections.Write();
 	std::vector<ConnectionPtr>& connections = *connectionsWriter;
+	std::vector<ConnectionPtr> pruned;
 
 	for (auto iter = connections.begin(); iter != connections.end();) {
 		ConnectionPtr pConnection = *iter;
 		if (!bInactiveOnly || !pConnection->IsConnectionActive()) {
-			try { 
-				pConnection->Disconnect();
-			}
-			catch (std::exception& e) {
-				LOG_ERROR("Error disconnecting: {}", e.what());
-			}
+			pruned.push_back(pConnection);
 			iter = connections.erase(iter);
 		} else {
 			iter++;
@@ -216,6 +212,17 @@ void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 	);
 
 	m_numOutbound = connections.size() - m_numInbound;
+	connectionsWriter.Clear();
+
+	// Disconnecting waits for the message being processed, which may itself be waiting for the list of connections.
+	for (const ConnectionPtr& pConnection : pruned) {
+		try {
+			pConnection->Disconnect();
+		}
+		catch (std::exception& e) {
+			LOG_ERROR("Error disconnecting: {}", e.what());
+		}
+	}
 }
 
 ConnectionPtr ConnectionManager::GetMostWorkPeer(const std::vector<ConnectionPtr>& connections) const
-- 
2.43.0


From cc632f1a77f351279992ac898c16aeb7203b65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 59/67] fix: look into the shared queue under its lock

---
 include/Common/SharedQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Common/SharedQueue.h b/include/Common/SharedQueue.h
index 335816e..b79d2fb 100644
--- a/include/Common/SharedQueue.h
+++ b/include/Common/SharedQueue.h
@@ -59,6 +59,7 @@ public:
 
     bool empty()
     {
+        std::unique_lock<std::mutex> mlock(mutex_);
         return queue_.empty();
     }
 
-- 
2.43.0


From b7da9fec26f36e3bba4d93831ba8d82e19910c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:37 +0000
Subject: [PATCH 60/67] fix: do not replace a file with one that was not
 written in full

---
 src/Common/Util/FileUtil.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index d6520fc..a405ab6 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -63,8 +63,14 @@ void FileUtil::SafeWriteToFile(const fs::path& filePath, const std::vector<uint8
 		throw FILE_EXCEPTION_F("Failed to open {}", tmpFilePath);
 	}
 
-	file.write((const char*)&data[0], data.size());
+	file.write((const char*)data.data(), data.size());
 	file.close();
+	if (file.fail())
+	{
+		RemoveFile(tmpFilePath);
+		LOG_ERROR_F("Failed to write {}", tmpFilePath);
+		throw FILE_EXCEPTION_F("Failed to write {}", tmpFilePath);
+	}
 
 	RenameFile(tmpFilePath, filePath);
 }
@@ -80,6 +86,11 @@ void FileUtil::WriteTextToFile(const fs::path& filePath, const std::string& text
 
 	file.write(text.c_str(), text.size());
 	file.close();
+	if (file.fail())
+	{
+		LOG_ERROR_F("Failed to write {}", filePath);
+		throw FILE_EXCEPTION_F("Failed to write {}", filePath);
+	}
 }
 
 bool FileUtil::RemoveFile(const fs::path& filePath) noexcept
-- 
2.43.0


From eeb109026b7116c00c0ab856afb442bca96d1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:42 +0000
Subject: [PATCH 61/67] fix: keep the old file until the new one replaces it

---
 src/Common/Util/FileUtil.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index a405ab6..1cf2a3e 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -38,13 +38,6 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 void FileUtil::RenameFile(const fs::path& source, const fs::path& destination)
 {
 	std::error_code ec;
-	fs::remove(destination, ec);
-	if (ec)
-	{
-		LOG_ERROR_F("Failed to remove {}. Error: {}", destination, ec.message());
-		throw FILE_EXCEPTION_F("Failed to remove {}. Error: {}", destination, ec.message());
-	}
-
 	fs::rename(source, destination, ec);
 	if (ec)
 	{
-- 
2.43.0


From 0d1665f5b3ddf86f09838213c1f781caa4b10365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 62/67] fix: report a file that could not be read in full

---
 src/Common/Util/FileUtil.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index 1cf2a3e..faa1fe9 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -29,7 +29,13 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 	data.resize((size_t)size);
 
 	file.seekg(0, std::ios::beg);
-	file.read((char*)&data[0], size);
+	file.read((char*)data.data(), size);
+	if (file.fail())
+	{
+		LOG_ERROR_F("Failed to read {}", filePath);
+		throw FILE_EXCEPTION_F("Failed to read {}", filePath);
+	}
+
 	file.close();
 
 	return true;
-- 
2.43.0


From b8d65f5abbd263226decf46c42ad8aaaf98cd9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 63/67] fix: reject a zip entry that could not be extracted in
 full

---
 src/PMMR/Zip/ZipFile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/PMMR/Zip/ZipFile.cpp b/src/PMMR/Zip/ZipFile.cpp
index e2b5b99..c8b83fa 100644
--- a/src/PMMR/Zip/ZipFile.cpp
+++ b/src/PMMR/Zip/ZipFile.cpp
@@ -58,7 +58,19 @@ void ZipFile::ExtractFile(const std::string& path, const fs::path& destination)
 
 	destinationFile.close();
 
-	unzCloseCurrentFile(m_unzFile);
+	// Reports a checksum that does not match.
+	const int closeResult = unzCloseCurrentFile(m_unzFile);
+	if (readSize < 0 || closeResult != UNZ_OK)
+	{
+		LOG_WARNING_F("Failed to read path ({}) in zip file ({}).", path, m_zipFilePath);
+		throw FILE_EXCEPTION("Failed to read file");
+	}
+
+	if (destinationFile.fail())
+	{
+		LOG_WARNING_F("Failed to write to destination ({}).", destination);
+		throw FILE_EXCEPTION("Failed to write to destination");
+	}
 }
 
 std::vector<std::string> ZipFile::ListFiles() const
-- 
2.43.0


From 3af883268ad64fa137f307a748903c5ee0b26a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 64/67] fix: initialise the attributes of zip entries

---
 src/PMMR/Zip/Zipper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PMMR/Zip/Zipper.cpp b/src/PMMR/Zip/Zipper.cpp
index 544f544..0caf0c9 100644
--- a/src/PMMR/Zip/Zipper.cpp
+++ b/src/PMMR/Zip/Zipper.cpp
@@ -70,7 +70,7 @@ void Zipper::AddFile(zipFile zf, const fs::path& sourceFile, const fs::path& des
 		std::vector<char> buffer(size);
 		if (size == 0 || pFile->read(&buffer[0], size))
 		{
-			zip_fileinfo zfi;
+			zip_fileinfo zfi = {};
 			fs::path fileName = destDir / sourceFile.filename();
 
 			if (ZIP_OK == zipOpenNewFileInZip(zf, fileName.string().c_str(), &zfi, nullptr, 0, nullptr, 0, nullptr, 0, Z_NO_COMPRESSION))
-- 
2.43.0


From 3dfe45105d8d3da4fc243bab21f06d3a6abf6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 65/67] fix: do not overwrite a state archive that is being
 sent

---
 src/PMMR/TxHashSetManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PMMR/TxHashSetManager.cpp b/src/PMMR/TxHashSetManager.cpp
index 8696643..04c8233 100644
--- a/src/PMMR/TxHashSetManager.cpp
+++ b/src/PMMR/TxHashSetManager.cpp
@@ -9,6 +9,7 @@
 #include <Core/File/FileRemover.h>
 #include <Common/Logger.h>
 
+#include <atomic>
 #include <filesystem.h>
 #include <future>
 
@@ -97,7 +98,9 @@ fs::path TxHashSetManager::SaveSnapshot(std::shared_ptr<IBlockDB> pBlockDB, Bloc
 	fs::path snapshotDir = fs::temp_directory_path() / "Snapshots" / pHeader->ShortHash();
 	FileRemover snapshotRemover(snapshotDir);
 
-	const std::string fileName = StringUtil::Format("TxHashSet.{}.zip", pHeader->ShortHash());
+	// The archive is sent after it's saved, so each one needs its own file.
+	static std::atomic<uint64_t> numSnapshots{ 0 };
+	const std::string fileName = StringUtil::Format("TxHashSet.{}.{}.zip", pHeader->ShortHash(), ++numSnapshots);
 	fs::path zipFilePath = fs::temp_directory_path() / "Snapshots" / fileName;
 
 	try
-- 
2.43.0


From be1dcaa9aac963a48144411d49a7255eb244f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 66/67] fix: do not ban a peer whose archive could not be
 stored

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 294434a..9f31c11 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -116,6 +116,14 @@ void TxHashSetPipe::Thread_ProcessTxHashSet(TxHashSetPipe& pipeline, Connection:
 		}
 
 		fout.close();
+		if (fout.fail()) {
+			LOG_ERROR_F("Failed to write {}", txHashSetPath);
+			FileUtil::RemoveFile(txHashSetPath);
+			pipeline.m_processing = false;
+			pipeline.m_pSyncStatus->UpdateStatus(ESyncStatus::TXHASHSET_SYNC_FAILED);
+
+			return;
+		}
 
 		LOG_INFO("Downloading successful");
 
-- 
2.43.0


From c32a308e190c0296774a1f0510e479a65d3fbd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:18 +0000
Subject: [PATCH 67/67] fix: do not lose the configuration when saving it fails

---
 src/API/Node/Handlers/UpdateConfigHandler.h | 15 +++++++++------
 src/Core/Config.cpp                         | 13 +++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/API/Node/Handlers/UpdateConfigHandler.h b/src/API/Node/Handlers/UpdateConfigHandler.h
index f687916..a3d2084 100644
--- a/src/API/Node/Handlers/UpdateConfigHandler.h
+++ b/src/API/Node/Handlers/UpdateConfigHandler.h
@@ -1,12 +1,13 @@
 #pragma once
 
 #include <Core/Config.h>
+#include <Common/Util/FileUtil.h>
 #include <Core/Global.h>
 #include <Core/Util/JsonUtil.h>
 #include <Net/Servers/RPC/RPCMethod.h>
 #include <API/Wallet/Owner/Models/Errors.h>
 #include <optional>
-#include <fstream>
+#include <sstream>
 
 class UpdateConfigHandler : public RPCMethod
 {
@@ -166,14 +167,16 @@ public:
 		}
 		
 		fs::path config_path = config.GetDataDirectory() / "server_config.json";
-		std::ofstream file(config_path, std::ios::out | std::ios::binary | std::ios::ate);
-		if (file.is_open()) {
-			file << config_json;
-			file.close();
+		try {
+			std::ostringstream stream;
+			stream << config_json;
+
+			const std::string text = stream.str();
+			FileUtil::SafeWriteToFile(config_path, { text.cbegin(), text.cend() });
 
 			Json::Value result_json;
 			return request.BuildResult(result_json);
-		} else {
+		} catch (std::exception&) {
 			LOG_ERROR("Failed to save config file at: {}", config_path.u8string());
 			return request.BuildError("INTERNAL_ERROR", "Failed to save config file at: " + config_path.u8string());
 		}		
diff --git a/src/Core/Config.cpp b/src/Core/Config.cpp
index fc4d0f6..f9bba47 100644
--- a/src/Core/Config.cpp
+++ b/src/Core/Config.cpp
@@ -12,7 +12,7 @@
 #include <Core/Util/JsonUtil.h>
 #include <Net/IPAddress.h>
 
-#include <fstream>
+#include <sstream>
 #include <unordered_set>
 
 struct Config::Impl
@@ -76,14 +76,11 @@ Config::Ptr Config::Load(const fs::path& configPath, const Environment environme
 
 	// Update config file
 	Json::Value& json = pConfig->GetJSON();
-	std::ofstream file(configPath, std::ios::out | std::ios::binary | std::ios::ate);
-	if (!file.is_open()) {
-		LOG_ERROR_F("Failed to save config file at: {}", configPath);
-		throw FILE_EXCEPTION_F("Failed to save config file at: {}", configPath);
-	}
+	std::ostringstream stream;
+	stream << json;
 
-	file << json;
-	file.close();
+	const std::string text = stream.str();
+	FileUtil::SafeWriteToFile(configPath, { text.cbegin(), text.cend() });
 
 	return pConfig;
 }
-- 
2.43.0

