#pragma once
#include <string>
#include <openssl/evp.h>
class SHA1 { public: std::string operator()(const std::string& s) const { unsigned char d[64]; unsigned n=0; EVP_Digest(s.data(), s.size(), d, &n, EVP_sha1(), nullptr); static const char* h="0123456789abcdef"; std::string r; for(unsigned i=0;i<n;i++){r+=h[d[i]>>4];r+=h[d[i]&15];} return r;} };
