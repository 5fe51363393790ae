#pragma once
#define REPROC_EXPORT
