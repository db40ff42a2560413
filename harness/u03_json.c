/* JSON navigation: every span stays inside the terminated text; values are found exactly */
#include "json.h"
#include "vf.h"
#ifndef N
#define N 6
#endif
static char* doc;
static char* text(void) {
  doc = (char*) nd_block(N + 1);
  doc[N] = 0;
  return doc;
}
static void inside(json_t v) {
  if (v.type == JSON_TYPE_INVALID || v.type == JSON_TYPE_NOT_FOUND) return;
  vf_assert(v.start >= doc && v.start <= doc + N && v.len >= 1 && v.len <= (size_t) (doc + N - v.start), "a value lies inside the text");
  bool s = v.start[0] == '"', o = v.start[0] == '{', a = v.start[0] == '[';
  vf_assert((v.type == JSON_TYPE_STRING) == s && (v.type == JSON_TYPE_OBJECT) == o && (v.type == JSON_TYPE_ARRAY) == a, "the type matches the text");
  if (s) vf_assert(v.len >= 2 && v.start[v.len - 1] == '"', "a string ends with its quote");
  if (o) vf_assert(v.len >= 2 && v.start[v.len - 1] == '}', "an object ends with its brace");
  if (a) vf_assert(v.len >= 2 && v.start[v.len - 1] == ']', "an array ends with its bracket");
}
void h_parse(void) {
  json_t v = json_parse(text());
  inside(v);
  if (v.type == JSON_TYPE_OBJECT && v.len == N) REACH("object");
}
void h_iter(void) {
  json_t  v    = json_parse(text());
  assume(v.type == JSON_TYPE_ARRAY);
  size_t n = 0;
  json_for_each_value(v, item) {
    inside(item);
    n++;
  }
  if (n == 2) REACH("two elements");
}
/* elements of [d,"c" ,d]: length, index access */
void h_at(void) {
  char c = nd_u8(), d1 = nd_u8(), d2 = nd_u8();
  assume(c && c != '"' && c != '\\' && d1 >= '0' && d1 <= '9' && d2 >= '0' && d2 <= '9');
  char* t = (char*) malloc(11);
  t[0] = '['; t[1] = d1; t[2] = ','; t[3] = '"'; t[4] = c; t[5] = '"'; t[6] = ' '; t[7] = ','; t[8] = d2; t[9] = ']'; t[10] = 0;
  json_t   v = {.type = JSON_TYPE_ARRAY, .start = t, .len = 10};
  uint32_t i = nd_range(0, 4);
  json_t   x = json_at(v, i);
  vf_assert(json_len(v) == 3, "the length counts all elements");
  if (i == 0) vf_assert(x.type == JSON_TYPE_NUMBER && x.start == t + 1 && x.len == 1, "first element");
  else if (i == 1) vf_assert(x.type == JSON_TYPE_STRING && x.start == t + 3 && x.len == 3, "second element");
  else if (i == 2) vf_assert(x.type == JSON_TYPE_NUMBER && x.start == t + 8 && x.len == 1, "third element");
  else vf_assert(x.type == JSON_TYPE_NOT_FOUND, "no element behind the end");
  if (i == 2) REACH("third");
}
void h_iter_obj(void) {
  json_t  v    = json_parse(text());
  bytes_t name = NULL_BYTES;
  assume(v.type == JSON_TYPE_OBJECT);
  json_for_each_property(v, item, name) {
    inside(item);
    vf_assert(name.data > (uint8_t*) doc && name.data + name.len < (uint8_t*) doc + N, "a property name lies inside the text");
    REACH("found");
  }
}
/* strings: the end is the first quote not escaped by a backslash */
void h_string_end(void) {
  text();
  doc[0]   = '"';
  json_t v = json_parse(doc);
  int    e = -1;
  bool   esc = false;
  for (int i = 1; i < N && e < 0; i++) {
    if (!doc[i]) break;
    if (esc) esc = false;
    else if (doc[i] == '\\') esc = true;
    else if (doc[i] == '"') e = i;
  }
  if (e < 0) vf_assert(v.type == JSON_TYPE_INVALID, "an unterminated string is invalid");
  else vf_assert(v.type == JSON_TYPE_STRING && v.start == doc && v.len == (size_t) e + 1, "a string extends to the first unescaped quote");
  if (e == 5 && doc[2] == '\\') REACH("escaped");
}
/* nested containers and strings: brackets inside strings do not count */
void h_container_end(void) {
  text();
  assume(doc[0] == '[' || doc[0] == '{');
  char   o = doc[0], c = o == '[' ? ']' : '}';
  json_t v = json_parse(doc);
  int    level = 0, e = -1;
  bool   str = false, esc = false;
  for (int i = 0; i < N && e < 0; i++) {
    if (!doc[i]) break;
    if (str) {
      if (esc) esc = false;
      else if (doc[i] == '\\') esc = true;
      else if (doc[i] == '"') str = false;
    }
    else if (doc[i] == '"') str = true;
    else if (doc[i] == o) level++;
    else if (doc[i] == c && --level == 0) e = i;
  }
  if (e < 0) vf_assert(v.type == JSON_TYPE_INVALID, "an unterminated container is invalid");
  else vf_assert(v.start == doc && v.len == (size_t) e + 1 && v.type == (o == '[' ? JSON_TYPE_ARRAY : JSON_TYPE_OBJECT), "a container extends to its matching bracket");
  if (e == 5 && doc[1] == '"' && doc[2] == c) REACH("bracket in string");
}
/* {"?": 7,"?":[8]}: lookup returns exactly the value of the first property with that name */
void h_get(void) {
  char k1 = nd_u8(), k2 = nd_u8();
  assume(k1 != '"' && k1 != '\\' && k1 && k2 != '"' && k2 != '\\' && k2);
  char* d = (char*) malloc(16);
  d[0] = '{'; d[1] = '"'; d[2] = k1; d[3] = '"'; d[4] = ':'; d[5] = ' '; d[6] = '7'; d[7] = ',';
  d[8] = '"'; d[9] = k2; d[10] = '"'; d[11] = ':'; d[12] = '8'; d[13] = '\n'; d[14] = '}'; d[15] = 0;
  json_t v = {.type = JSON_TYPE_OBJECT, .start = d, .len = 15};
  char   q[2] = {nd_u8(), 0};
  assume(q[0]);
  json_t r = json_get(v, q);
  if (q[0] == k1) vf_assert(r.type == JSON_TYPE_NUMBER && r.start == d + 6 && r.len == 1, "first property found");
  else if (q[0] == k2) vf_assert(r.type == JSON_TYPE_NUMBER && r.start == d + 12 && r.len == 1, "second property found");
  else vf_assert(r.type == JSON_TYPE_NOT_FOUND, "a missing property is not found");
  if (q[0] == k2 && k1 != k2) REACH("second");
}
