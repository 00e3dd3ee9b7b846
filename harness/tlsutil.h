// Keys and certificates made at run time for the checks that use TLS.
#ifndef TLSUTIL_H
#define TLSUTIL_H

#include "vh.h"

#include <unistd.h>

#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

#include "libiqxmlrpc/https_client.h"
#include "libiqxmlrpc/https_server.h"
#include "libiqxmlrpc/ssl_lib.h"

namespace net {

struct Identity {
  EVP_PKEY* key;
  X509* cert;
  std::string sha256;           // of the DER form, in lower-case hex

  explicit Identity(const std::string& name, long serial): key(0), cert(0)
  {
    key = EVP_RSA_gen(2048);
    cert = X509_new();
    if (!key || !cert) vh::broken("cannot make a key");
    X509_set_version(cert, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(cert), serial);
    X509_gmtime_adj(X509_getm_notBefore(cert), -86400);
    X509_gmtime_adj(X509_getm_notAfter(cert), 86400L * 365);
    X509_set_pubkey(cert, key);
    X509_NAME* n = X509_get_subject_name(cert);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)name.c_str(), -1, -1, 0);
    X509_set_issuer_name(cert, n);
    if (!X509_sign(cert, key, EVP_sha256())) vh::broken("cannot sign a certificate");
    digest();
  }

  //! A new serial number changes the digest.
  void renumber(long serial)
  {
    ASN1_INTEGER_set(X509_get_serialNumber(cert), serial);
    if (!X509_sign(cert, key, EVP_sha256())) vh::broken("cannot sign a certificate");
    digest();
  }

  void digest()
  {
    unsigned char* der = 0;
    int n = i2d_X509(cert, &der);
    unsigned char md[32];
    unsigned l = 0;
    if (n <= 0 || !EVP_Digest(der, n, md, &l, EVP_sha256(), 0) || l != 32) vh::broken("cannot digest a certificate");
    OPENSSL_free(der);
    sha256.clear();
    for (int i = 0; i < 32; ++i) sha256 += vh::fmt("%02x", md[i]);
  }

  ~Identity() { X509_free(cert); EVP_PKEY_free(key); }
  Identity(const Identity&) = delete;
  Identity& operator=(const Identity&) = delete;
};

//! Calls `f(certificate file, key file)` with files that are removed afterwards.
template <class F> void with_files(Identity& id, F f)
{
  char dir[] = "/tmp/vtlsXXXXXX";
  if (!mkdtemp(dir)) vh::broken("no temporary directory");
  std::string c = std::string(dir) + "/c.pem", k = std::string(dir) + "/k.pem";
  FILE* o = fopen(c.c_str(), "w");
  bool ok = o && PEM_write_X509(o, id.cert);
  if (o) fclose(o);
  o = fopen(k.c_str(), "w");
  ok = ok && o && PEM_write_PrivateKey(o, id.key, 0, 0, 0, 0, 0);
  if (o) fclose(o);
  if (!ok) vh::broken("cannot write a certificate");
  f(c, k);
  unlink(c.c_str());
  unlink(k.c_str());
  rmdir(dir);
}

//! Whether the server of the fixture and the raw peers speak TLS.
inline bool over_tls() { static bool t = vh::opts().num("tls", 0) != 0; return t; }

//! Sets up the library for TLS, once.
inline void need_tls_context()
{
  static bool done = [] {
    Identity id("localhost", 7);
    with_files(id, [](const std::string& c, const std::string& k) { iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(c, k); });
    return true;
  }();
  (void)done;
}

} // namespace net

#endif
