/* JSON schema validation against the schema documentation in json.h */
#include "json.h"
#include "vf.h"
char* bprintf(buffer_t* b, const char* fmt, ...) { return (char*) malloc(1); }
static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
#ifndef L
#define L 6 /* characters between the quotes */
#endif
#ifndef DEF
#define DEF "bytes"
#endif
/* quoted string of exactly L arbitrary characters against a primitive type */
void h_primitive(void) {
  char* t = (char*) nd_block(L + 2);
  t[0] = '"'; t[L + 1] = '"';
  for (int i = 1; i <= L; i++) assume(t[i] && t[i] != '"' && t[i] != '\\');
  json_t      v   = {.type = JSON_TYPE_STRING, .start = t, .len = L + 2};
  const char* def = DEF;
  const char* err = json_validate(v, def, "p");
  bool        hex = L >= 2 && t[1] == '0' && t[2] == 'x', dec = true;
  int         d   = L - 2;
  for (int i = 3; i <= L; i++) if (!hexd(t[i])) hex = false;
  for (int i = 1; i <= L; i++) if (t[i] < '0' || t[i] > '9') dec = false;
  bool qty = hex && d >= 1 && d <= 64 && (d == 1 || t[3] != '0');
  bool ok  = false;
  if (!strcmp(def, "bytes32")) ok = hex && d == 64;
  else if (!strcmp(def, "address")) ok = hex && d == 40;
  else if (!strcmp(def, "hexuint")) ok = qty;
  else if (!strcmp(def, "hex32")) ok = hex && d <= 64;
  else if (!strcmp(def, "bytes")) ok = hex;
  else if (!strcmp(def, "suint")) ok = dec;
  else if (!strcmp(def, "block")) {
    ok = qty;
    if (L == 6 && t[1] == 'l' && t[2] == 'a' && t[3] == 't' && t[4] == 'e' && t[5] == 's' && t[6] == 't') ok = true;
    if (L == 4 && t[1] == 's' && t[2] == 'a' && t[3] == 'f' && t[4] == 'e') ok = true;
    if (L == 9 && t[1] == 'f' && t[2] == 'i' && t[3] == 'n' && t[4] == 'a' && t[5] == 'l' && t[6] == 'i' && t[7] == 'z' && t[8] == 'e' && t[9] == 'd') ok = true;
  }
  vf_assert((err == NULL) == ok, "a string is accepted exactly when it has the documented form");
#ifdef ACC
  if (ok) REACH("accepted");
#endif
  if (!ok) REACH("rejected");
}
/* any JSON type against a primitive type */
void h_types(void) {
  char*  t  = (char*) nd_block(10);
  uint32_t k = nd_range(0, 6);
  json_t v  = {.type = (json_type_t) k, .start = t, .len = 4};
  assume(v.type != JSON_TYPE_STRING);
  vf_assert((json_validate(v, "bool", "p") == NULL) == (v.type == JSON_TYPE_BOOLEAN), "bool takes booleans only");
  vf_assert((json_validate(v, "uint", "p") == NULL) == (v.type == JSON_TYPE_NUMBER), "uint takes numbers only");
  vf_assert(json_validate(v, "bytes", "p") && json_validate(v, "bytes32", "p") && json_validate(v, "address", "p") && json_validate(v, "hexuint", "p") &&
                json_validate(v, "hex32", "p") && json_validate(v, "block", "p") && json_validate(v, "suint", "p"),
            "hex and decimal strings take strings only");
  vf_assert(json_validate((json_t) {.type = JSON_TYPE_STRING, .start = "\"ab\"", .len = 4}, "uint", "p") != NULL, "a string is not a number");
  vf_assert(json_validate((json_t) {.type = JSON_TYPE_STRING, .start = "\"ab\"", .len = 4}, "bool", "p") != NULL, "a string is not a boolean");
  if (k == JSON_TYPE_BOOLEAN) REACH("bool");
}
/* objects: {"K":V,"M":W} against {a:uint,b?:bool} */
static int tok(char* p, char c) { /* 0 number, 1 bool, 2 null */
  if (c == 't') { p[0] = 't'; p[1] = 'r'; p[2] = 'u'; p[3] = 'e'; return 1; }
  if (c == 'n') { p[0] = 'n'; p[1] = 'u'; p[2] = 'l'; p[3] = 'l'; return 2; }
  p[0] = '1'; p[1] = '2'; p[2] = '3'; p[3] = '4';
  return 0;
}
#ifndef V1
#define V1 '1'
#endif
#ifndef V2
#define V2 't'
#endif
void h_object(void) {
  char k1 = nd_u8(), k2 = nd_u8();
  assume(k1 && k1 != '"' && k1 != '\\' && k2 && k2 != '"' && k2 != '\\');
  char* d = (char*) malloc(20);
  d[0] = '{'; d[1] = '"'; d[2] = k1; d[3] = '"'; d[4] = ':';
  int v1 = tok(d + 5, V1);
  d[9] = ','; d[10] = '"'; d[11] = k2; d[12] = '"'; d[13] = ':';
  int v2 = tok(d + 14, V2);
  d[18] = '}'; d[19] = 0;
  json_t v  = {.type = JSON_TYPE_OBJECT, .start = d, .len = 19};
  bool   ok = json_validate(v, "{a:uint,b?:bool}", "p") == NULL;
  int    a  = k1 == 'a' ? v1 : k2 == 'a' ? v2 : -1; /* value of the first property of that name */
  int    b  = k1 == 'b' ? v1 : k2 == 'b' ? v2 : -1;
  vf_assert(ok == (a == 0 && (b == -1 || b == 1 || b == 2)), "required and optional properties are checked");
#if V1 == '1' || V2 == '1'
  if (ok) REACH("accepted");
#endif
  if (!ok) REACH("rejected");
}
void h_wildcard(void) {
  char k1 = nd_u8(), k2 = nd_u8();
  assume(k1 && k1 != '"' && k1 != '\\' && k2 && k2 != '"' && k2 != '\\');
  char* d = (char*) malloc(20);
  d[0] = '{'; d[1] = '"'; d[2] = k1; d[3] = '"'; d[4] = ':';
  int v1 = tok(d + 5, V1);
  d[9] = ','; d[10] = '"'; d[11] = k2; d[12] = '"'; d[13] = ':';
  int v2 = tok(d + 14, V2);
  d[18] = '}'; d[19] = 0;
  json_t v  = {.type = JSON_TYPE_OBJECT, .start = d, .len = 19};
  vf_assert((json_validate(v, "{*:bool}", "p") == NULL) == (v1 == 1 && v2 == 1), "every value of a wildcard object is checked");
  REACH("end");
}
/* arrays: every element is checked, against its own definition while there is one */
void h_array(void) {
  uint8_t s1 = nd_u8(), s2 = nd_u8(), s3 = nd_u8();
  char*   d = (char*) malloc(17);
  d[0] = '['; d[5] = ','; d[10] = ','; d[15] = ']'; d[16] = 0;
  int v1 = tok(d + 1, V1), v2 = tok(d + 6, V2), v3 = tok(d + 11, V3);
  json_t v = {.type = JSON_TYPE_ARRAY, .start = d, .len = 16};
  vf_assert((json_validate(v, "[bool]", "p") == NULL) == (v1 == 1 && v2 == 1 && v3 == 1), "every array element is checked");
  vf_assert((json_validate(v, "[uint,bool]", "p") == NULL) == (v1 == 0 && v2 == 1 && v3 == 1), "tuple elements are checked by position");
  vf_assert(json_validate((json_t) {.type = JSON_TYPE_OBJECT, .start = d, .len = 16}, "[bool]", "p") != NULL, "an object is not an array");
  vf_assert(json_validate(v, "{a:uint}", "p") != NULL, "an array is not an object");
  REACH("end");
}
