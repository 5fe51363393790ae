#pragma once
#define REPROCXX_EXPORT
