// Fixed pools of names that plans index into.
#pragma once
#include <string>
#include <vector>

namespace sim {
inline const std::vector<std::string>& kid_pool() {
  static const std::vector<std::string> p = {
      "", "k1", "k", "k12", "K1", "k1 ", std::string("k1\0x", 4), "\xce\xb1-key",
      "62a93512c9ee4c7f8067b5a216dade2763d32a47", "62a93512c9ee4c7f8067b5a216dade2763d32a48",
      std::string(300, 'a'), std::string(300, 'a') + "b", "0", "2", "a\"b\\c", "k2",
      // from here on groups of eight that are easily taken for each other
      "https://a/k1", "http://a/k1", "https://a/k1/", "a/k1", "/k1", "https://a/k1#k1", "urn:k1", "k1/",
      "1", "01", "1.0", "+1", "1 ", "\xef\xbc\x91", "0x1", "-1",
      "k-1", "k_1", "k+1", "k/1", "k=1", "k1=", "k1==", "azE",
      " k1", "k1\n", "k1\t", "\tk1", "k 1", "k1.", "K12", "k1\r",
      std::string(64, 'a') + "1", std::string(64, 'a') + "2", std::string(32, 'a') + "1", std::string(32, 'a') + "2",
      std::string(255, 'a'), std::string(256, 'a'), std::string(1000, 'a') + "1", std::string(1000, 'a') + "2",
      "\xc3\xa9", "e\xcc\x81", "\xc3\x89", "\xc3\x9f", "ss", "SS", "\xef\xac\x81", "fi",
      "null", "undefined", "none", "*", ".*", "k*", "k?", "%6b1"};
  return p;
}
inline const std::vector<std::string>& keyalg_pool() {  // 0..12 are the supported algorithms
  static const std::vector<std::string> p = {
      "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512", "HS256",
      "HS384", "HS512", "EdDSA", "",      "RS999", "es256", "RS2",   "none",  "ES256K", "RS256 ",
      "PS",    "HS25",  "RS"};
  return p;
}
inline const std::vector<std::string>& badalg_pool() {  // names no verifier implements
  static const std::vector<std::string> p = {"none", "None", "NONE", "", "rs256", "RS256 ", " RS256", "RS25", "RS2560",
                                             "ES256K", "HS1", "Ed25519", "EDDSA", "HS257", "PS", "RS", "nOnE",
                                             std::string("RS256\0", 6), std::string("HS256\0x", 7), "ES", "HS224", "RSA"};
  return p;
}
inline const std::vector<std::string>& aud_pool() {
  static const std::vector<std::string> p = {
      "https://example.com/", "http://example.com", "example.com", "example.com/", "example.com//",
      "HTTPS://example.com", "https://", "http://", "/", "", "https://https://example.com", "httpss://example.com",
      "https://example.com/path", "example.com/path/", " example.com", "EXAMPLE.com", "http:///", "http:/", "https:",
      std::string("example.com\0", 12), std::string("example.com\0/", 13), "\xc3\xa9xample.com", "example.co",
      "example.comm", "api.example.com", "https://api.example.com:443/v1/", "api.example.com:443/v1", "svc-a", "svc-b",
      "svc-a/", "https://svc-a//", "//svc-a", "http", std::string(5000, 'z'), "https://" + std::string(5000, 'z') + "/",
      "http://http://example.com", "http://https://svc-a", "https://svc-b", "HTTP://example.com", "Http://svc-a",
      "hTTps://svc-b/", "ftp://example.com", "//example.com", "example.com\\", "https//example.com", "http://example.com?a=b/",
      "https:///example.com", "EXAMPLE.COM/", "example.com/\n", "svc-a ", "https://svc-a#x", "\thttps://svc-a",
      // groups of eight: near misses of one another
      "https://svc.example.com", "https://svc.example.com:443", "svc.example.com:443", "svc.example.com:80", "http://svc.example.com:80/",
      "svc.example.com.", "www.svc.example.com", "svc.example.com:4430",
      "*", "*.svc.example.com", "svc.*", "all", "any", "null", "svc.example.com", "svc.example.com?aud=svc-a",
      "svc-a,svc-b", "svc-a svc-b", "svc.example.com#f", "svc%2Eexample.com", "user@svc.example.com", "svc.example.com;v=1", "svc_a", "svc-a\r",
      std::string(200, 'p') + "a", std::string(200, 'p') + "b", "a" + std::string(200, 'p'), "b" + std::string(200, 'p'),
      std::string(200, 'p'), std::string(255, 'p') + "x", std::string(255, 'p') + "y", std::string(255, 'p'),
      std::string(1023, 'w') + "x", std::string(1023, 'w') + "y", std::string(1024, 'w'), "https://" + std::string(1023, 'w') + "x/",
      std::string(4095, 'w') + "x", std::string(4095, 'w') + "y", "https://" + std::string(31, 'v') + "1", std::string(31, 'v') + "2",
      "e\xcc\x81xample.com", "\xc3\x89xample.com", "xn--xample-9ua.com", "example.com\xe2\x80\x8b", "ex\xc2\xad" "ample.com", "\xef\xbc\x85",
      "e\xcc\x81xample.com/", "https://\xc3\xa9xample.com",
      "0", "00", "0.0", "-0", "1", "true", "false", "[]"};
  return p;
}
}  // namespace sim
