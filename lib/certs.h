// Certificates made on the spot.
#pragma once
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <fstream>
#include <stdexcept>
#include <string>

namespace vf {
struct Ca { EVP_PKEY* key; X509* cert; };
inline EVP_PKEY* newKey() { auto* k = EVP_EC_gen("P-256"); if (!k) throw std::runtime_error("key"); return k; }
inline X509* newCert(EVP_PKEY* key, const std::string& cn, EVP_PKEY* signer, X509* issuer, bool ca, long from = -60, long to = 86400) {
  static long serial = 1;
  X509* x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
  X509_gmtime_adj(X509_getm_notBefore(x), from);
  X509_gmtime_adj(X509_getm_notAfter(x), to);
  X509_set_pubkey(x, key);
  auto* n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char*)"vf", -1, -1, 0);
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)cn.c_str(), -1, -1, 0);
  X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n);
  if (ca) {
    auto* e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_basic_constraints, "critical,CA:TRUE");
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  }
  X509_sign(x, signer, EVP_sha256());
  return x;
}
inline Ca newCa(const std::string& name) { auto* k = newKey(); return {k, newCert(k, name, k, nullptr, true)}; }
inline void writeCert(const std::string& p, X509* x) { FILE* f = fopen(p.c_str(), "wb"); PEM_write_X509(f, x); fclose(f); }
inline void writeKey(const std::string& p, EVP_PKEY* k, const std::string& pass) {
  FILE* f = fopen(p.c_str(), "wb");
  PEM_write_PrivateKey(f, k, pass.empty() ? nullptr : EVP_aes_256_cbc(), (const unsigned char*)(pass.empty() ? nullptr : pass.data()), (int)pass.size(), nullptr, nullptr);
  fclose(f);
}
inline void writeText(const std::string& p, const std::string& s) { std::ofstream(p) << s; }
} // namespace vf
