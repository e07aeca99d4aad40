#pragma once
#include <sse/crypto/vf_crypto.hpp>
