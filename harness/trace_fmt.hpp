// Reference encoders of every trace format: records -> file bytes, and the requests a reader must return for them.
#pragma once
#include <stdint.h>
#include <string.h>

#include <functional>
#include <string>
#include <vector>

extern "C" {
#include "libCacheSim.h"
#include "traceReader/generalReader/lcs.h"
}

enum Field { F_TIME, F_ID, F_SIZE, F_OP, F_NEXT, F_TTL, F_NS, F_KEYSZ, F_VALSZ, F_CTYPE, F_TENANT, F_BUCKET, F_AGE, F_HOST, F_EXT, F_LEVEL, F_PARAM, F_METHOD, F_COLO, F_N };
static const char *FIELD_NAME[] = {"time", "id", "size", "op", "next_access", "ttl", "ns", "key_size", "val_size", "content_type", "tenant", "bucket", "age", "hostname", "extension", "n_level", "n_param", "method", "colo"};

struct Rec {
  int64_t f[F_N];
  uint32_t mask = 0;  // fields the format defines
  int cnt = 1;        // repetitions
  bool zero = false;  // a request the size-zero filter drops
  std::string text;   // textual id, when used
  Rec() { memset(f, 0, sizeof f); }
  void set(Field k, int64_t v) {
    f[k] = v;
    mask |= 1u << k;
  }
};

static int64_t req_field(const request_t *r, int k) {
  switch (k) {
    case F_TIME: return r->clock_time;
    case F_ID: return (int64_t)r->obj_id;
    case F_SIZE: return r->obj_size;
    case F_OP: return (int64_t)r->op;
    case F_NEXT: return r->next_access_vtime;
    case F_TTL: return r->ttl;
    case F_NS: return r->ns;
    case F_KEYSZ: return r->key_size;
    case F_VALSZ: return r->val_size;
    case F_CTYPE: return r->content_type;
    case F_TENANT: return r->tenant_id;
    case F_BUCKET: return r->bucket_id;
    case F_AGE: return r->age;
    case F_HOST: return r->hostname;
    case F_EXT: return r->extension;
    case F_LEVEL: return r->n_level;
    case F_PARAM: return r->n_param;
    case F_METHOD: return r->method;
    case F_COLO: return r->colo;
  }
  return 0;
}
// make sure a field the reader forgets to set is noticed
static void poison(request_t *r) {
  r->clock_time = 0x5a5a5a5a5a5a;
  r->obj_id = 0x5a5a5a5a5a5a5a5a;
  r->obj_size = 0x5a5a5a5a5a;
  r->op = OP_INVALID;
  r->next_access_vtime = -77;
  r->ns = r->content_type = r->tenant_id = r->bucket_id = r->age = r->hostname = 0x5a5a5a;
  r->extension = r->n_level = r->n_param = r->colo = 0x5a5a;
  r->method = 0x5a;
  r->key_size = 0x5a5a;
  r->val_size = 0x5a5a5a;
  r->hv = 0x5a5a5a5a;
}

struct Fmt {
  std::string name;
  trace_type_e type;
  int item = 0;            // bytes per record, 0: text
  std::string head;        // bytes before the first record
  bool own_zero = false;   // the format drops size-zero requests when asked to
  std::vector<Rec> recs;   // record alphabet
  std::vector<std::string> enc;  // their bytes
  std::function<void(reader_init_param_t &)> init;
  bool needs_init = false;
  int min_rec = 1;
  std::string sep_last;    // text: terminator of a line
  bool last_open = false;  // text: the last line has no terminator
  std::string blank;       // text: put after every record (blank lines)
  std::string blank0;      // text: put before the first record
  bool one_id = false;     // textual ids: compare by equality classes
  std::string bytes(const std::vector<int> &idx) const {
    std::string s = head + blank0;
    for (size_t i = 0; i < idx.size(); i++) {
      s += enc[idx[i]];
      if (!item) {
        if (i + 1 < idx.size() || !last_open) s += sep_last + blank;
      }
    }
    return s;
  }
};

template <class T>
static void put(std::string &s, T v) { s.append((const char *)&v, sizeof v); }

static int64_t NEXTV(int64_t v) { return (v == -1 || v == INT64_MAX) ? MAX_REUSE_DISTANCE : v; }

// the value tables the record alphabets draw from; record i uses entry i of each
static const uint32_t U32[] = {7, 0xffffffffu, 0x80000001u, 1, 0x7fffffff, 65537};
static const uint64_t U64[] = {3, 0xffffffffffffffffull, 0x8000000000000005ull, 0x100000003ull, 3, 12};
static const uint32_t SZ[] = {1, 0xffffffffu, 0x80000010u, 4096, 0, 70000};
static const int64_t NX[] = {5, -1, INT64_MAX, 0x100000007ll, 2, 1};

// binary formats with a fixed layout
static std::vector<Fmt> fixed_formats() {
  std::vector<Fmt> v;
  auto add = [&](const char *n, trace_type_e t, int item, bool own_zero, std::function<std::string(int, Rec &)> e, int nrec = 6) {
    Fmt f;
    f.name = n;
    f.type = t;
    f.item = item;
    f.own_zero = own_zero;
    for (int i = 0; i < nrec; i++) {
      Rec r;
      std::string s = e(i, r);
      if ((int)s.size() != item) abort();
      r.zero = own_zero && r.zero;
      f.recs.push_back(r);
      f.enc.push_back(s);
    }
    v.push_back(f);
  };
  auto gen = [](Rec &r, int i, bool time = true) {
    if (time) r.set(F_TIME, U32[i]);
    r.set(F_ID, U64[i]);
    r.set(F_SIZE, SZ[i]);
    r.zero = SZ[i] == 0;
  };
  add("standardIQI", STANDARD_IQI_TRACE, 16, false, [&](int i, Rec &r) {
    std::string s;
    gen(r, i);
    put(s, U32[i]), put(s, U64[i]), put(s, SZ[i]);
    return s;
  });
  add("standardIQQ", STANDARD_IQQ_TRACE, 20, false, [&](int i, Rec &r) {
    std::string s;
    gen(r, i);
    uint64_t z = i == 3 ? 0x100000010ull : SZ[i];
    r.set(F_SIZE, z);
    put(s, U32[i]), put(s, U64[i]), put(s, z);
    return s;
  });
  add("standardIII", STANDARD_III_TRACE, 12, false, [&](int i, Rec &r) {
    std::string s;
    gen(r, i);
    r.set(F_ID, U32[(i + 1) % 6]);
    put(s, U32[i]), put(s, U32[(i + 1) % 6]), put(s, SZ[i]);
    return s;
  });
  add("standardIQIBH", STANDARD_IQIBH_TRACE, 19, false, [&](int i, Rec &r) {
    std::string s;
    gen(r, i);
    uint8_t op = 1 + 2 * i;
    uint16_t ns = i == 1 ? 0xffff : 300 * i;
    r.set(F_OP, op), r.set(F_NS, ns);
    put(s, U32[i]), put(s, U64[i]), put(s, SZ[i]), put(s, op), put(s, ns);
    return s;
  });
  auto twr = [&](bool hasns) {
    return [=](int i, Rec &r) {
      std::string s;
      uint32_t ks[] = {5, 1023, 0, 512, 8, 77}, vs[] = {1, 0x3fffff, 0x200000, 4096, 0, 0};
      uint32_t op[] = {1, 2, 3, 9, 1, 3}, ttl[] = {0, 0xffffff, 0x800000, 60, 5, 86400};
      uint16_t ns = i == 1 ? 0xffff : 300 * i;
      r.set(F_TIME, U32[i]), r.set(F_ID, U64[i]), r.set(F_SIZE, ks[i] + vs[i]), r.set(F_OP, op[i]), r.set(F_TTL, ttl[i]);
      r.set(F_KEYSZ, ks[i]), r.set(F_VALSZ, vs[i]);
      r.zero = vs[i] == 0 && (op[i] == OP_GET || op[i] == OP_GETS);
      put(s, U32[i]), put(s, U64[i]), put(s, ks[i] << 22 | vs[i]), put(s, op[i] << 24 | ttl[i]);
      if (hasns) put(s, ns), r.set(F_NS, ns);
      return s;
    };
  };
  add("twr", TWR_TRACE, 20, true, twr(false));
  add("twrNS", TWRNS_TRACE, 22, true, twr(true));
  auto cf1 = [&](bool oracle) {
    return [=](int i, Rec &r) {
      std::string s;
      gen(r, i);
      uint64_t z = i == 3 ? 0x100000010ull : SZ[i];
      r.set(F_SIZE, z);
      uint16_t ct = 11 + i, ext = 21 + i, lv = 31 + i;
      uint8_t pa = 41 + i, me = 51 + i, co = 61 + i;
      uint32_t ttl = 1000 + i, age = 2000 + i, host = 3000 + i;
      r.set(F_TTL, ttl), r.set(F_AGE, age), r.set(F_HOST, host), r.set(F_CTYPE, ct), r.set(F_EXT, ext), r.set(F_LEVEL, lv);
      r.set(F_PARAM, pa), r.set(F_METHOD, me), r.set(F_COLO, co);
      put(s, U32[i]), put(s, U64[i]), put(s, z), put(s, ttl), put(s, age), put(s, host);
      if (oracle) put(s, NX[i]), r.set(F_NEXT, NEXTV(NX[i]));
      put(s, ct), put(s, ext), put(s, lv), put(s, pa), put(s, me), put(s, co);
      return s;
    };
  };
  add("cf1", CF1_TRACE, 41, true, cf1(false));
  add("oracleCF1", ORACLE_CF1_TRACE, 49, true, cf1(true));
  auto aka = [&](bool oracle) {
    return [=](int i, Rec &r) {
      std::string s;
      gen(r, i);
      uint16_t te = 11 + i, bu = 21 + i, ct = 31 + i;
      r.set(F_TENANT, te - oracle), r.set(F_BUCKET, bu - oracle), r.set(F_CTYPE, ct - oracle);
      put(s, U32[i]), put(s, U64[i]), put(s, SZ[i]), put(s, te), put(s, bu), put(s, ct);
      if (oracle) put(s, NX[i]), r.set(F_NEXT, NEXTV(NX[i]));
      return s;
    };
  };
  add("akamai", AKAMAI_TRACE, 22, true, aka(false));
  add("oracleAkamai", ORACLE_AKAMAI_TRACE, 30, true, aka(true));
  auto wiki = [&](bool time, bool ct, bool oracle) {
    return [=](int i, Rec &r) {
      std::string s;
      gen(r, i);
      r.set(F_TIME, time ? U32[i] : 0);
      if (time) put(s, U32[i]);
      put(s, U64[i]), put(s, SZ[i]);
      uint16_t c = i == 1 ? 0xffff : 31 + i;
      if (ct) put(s, c), r.set(F_CTYPE, c);
      if (oracle) put(s, NX[i]), r.set(F_NEXT, NEXTV(NX[i]));
      return s;
    };
  };
  add("wiki16u", WIKI16u_TRACE, 14, true, wiki(false, true, false));
  add("wiki19u", WIKI19u_TRACE, 18, true, wiki(true, true, false));
  add("wiki19t", WIKI19t_TRACE, 16, true, wiki(true, false, false));
  add("oracleWiki16u", ORACLE_WIKI16u_TRACE, 22, true, wiki(false, true, true));
  add("oracleWiki19u", ORACLE_WIKI19u_TRACE, 26, true, wiki(true, true, true));
  add("oracleGeneral", ORACLE_GENERAL_TRACE, 24, true, wiki(true, false, true));
  add("oracleGeneralOpNS", ORACLE_GENERALOPNS_TRACE, 27, true, [&](int i, Rec &r) {
    std::string s;
    gen(r, i);
    uint8_t op = 1 + 2 * i;
    uint16_t ns = i == 1 ? 0xffff : 300 * i;
    r.set(F_OP, op), r.set(F_NS, ns), r.set(F_NEXT, NEXTV(NX[i]));
    put(s, U32[i]), put(s, U64[i]), put(s, SZ[i]), put(s, op), put(s, ns), put(s, NX[i]);
    return s;
  });
  add("oracleSimTwrNS", ORACLE_SIM_TWRNS_TRACE, 30, false, [&](int i, Rec &r) {
    std::string s;
    gen(r, i);
    int32_t ttl = 1000 * i;
    uint16_t ns = i == 1 ? 0xffff : 300 * i;
    r.set(F_TTL, ttl), r.set(F_NS, ns), r.set(F_NEXT, NEXTV(NX[i]));
    put(s, U32[i]), put(s, U64[i]), put(s, SZ[i]), put(s, ttl), put(s, ns), put(s, NX[i]);
    return s;
  });
  add("oracleSysTwrNS", ORACLE_SYS_TWRNS_TRACE, 34, true, [&](int i, Rec &r) {
    std::string s;
    uint16_t ks = i == 1 ? 0xffff : 10 * i;
    uint32_t vs = i == 1 ? 0x80000001u : SZ[i] / 2;
    uint16_t op[] = {1, 2, 3, 9, 1, 3}, ns = i == 1 ? 0xffff : 300 * i;
    int32_t ttl = 1000 * i;
    r.set(F_TIME, U32[i]), r.set(F_ID, U64[i]), r.set(F_SIZE, (int64_t)ks + vs), r.set(F_KEYSZ, ks), r.set(F_VALSZ, vs);
    r.set(F_OP, op[i]), r.set(F_NS, ns), r.set(F_TTL, ttl), r.set(F_NEXT, NEXTV(NX[i]));
    r.zero = vs == 0 && (op[i] == OP_GET || op[i] == OP_GETS);
    put(s, U32[i]), put(s, U64[i]), put(s, ks), put(s, vs), put(s, op[i]), put(s, ns), put(s, ttl), put(s, NX[i]);
    return s;
  });
  add("valpin", VALPIN_TRACE, 8, false, [&](int i, Rec &r) {
    std::string s;
    r.set(F_ID, U64[i]), r.set(F_SIZE, 1);
    put(s, U64[i]);
    return s;
  });
  for (int ver = 1; ver <= 2; ver++) {
    add(ver == 1 ? "vscsi1" : "vscsi2", VSCSI_TRACE, ver == 1 ? 32 : 40, false, [&](int i, Rec &r) {
      std::string s;
      uint64_t ts = 5000000000000000ull + (uint64_t)i * 1700000 + 999999, lbn = U64[i];
      uint32_t sn = i, len = SZ[i], nsg = 1;
      uint16_t cmd = 0x2a, vr = ver << 8;
      r.set(F_TIME, ts / 1000000), r.set(F_ID, lbn), r.set(F_SIZE, len);
      if (ver == 1) put(s, sn), put(s, len), put(s, nsg), put(s, cmd), put(s, vr), put(s, lbn), put(s, ts);
      else put(s, cmd), put(s, vr), put(s, sn), put(s, len), put(s, nsg), put(s, lbn), put(s, ts), put(s, (uint64_t)77);
      return s;
    });
    v.back().min_rec = 3;
  }
  return v;
}

// ---------------------------------------------------------------- binary traces described by a format string
static void put_typed(std::string &s, char t, uint64_t raw, int64_t &val) {
  switch (t) {
    case 'c': case 'b': { int8_t x = raw; put(s, x); val = x; break; }
    case 'B': { uint8_t x = raw; put(s, x); val = x; break; }
    case 'h': { int16_t x = raw; put(s, x); val = x; break; }
    case 'H': { uint16_t x = raw; put(s, x); val = x; break; }
    case 'i': case 'l': { int32_t x = raw; put(s, x); val = x; break; }
    case 'I': case 'L': { uint32_t x = raw; put(s, x); val = x; break; }
    case 'q': case 'Q': { int64_t x = raw; put(s, x); val = x; break; }
    case 'f': { float x = (int16_t)raw + 0.5f; put(s, x); val = (int64_t)x; break; }
    case 'd': { double x = (int32_t)raw + 0.5; put(s, x); val = (int64_t)x; break; }
    default: abort();
  }
}
// layout: format characters; which[i] = the field at position i (-1: not used)
static Fmt fmt_string_format(const std::string &chars, const std::vector<int> &which, bool lcs) {
  Fmt f;
  f.name = std::string(lcs ? "lcs" : "bin") + "<" + chars + "/";
  int pos[F_N];
  memset(pos, 0, sizeof pos);
  for (size_t i = 0; i < which.size(); i++) {
    if (which[i] >= 0) pos[which[i]] = i + 1;
    f.name += which[i] < 0 ? '-' : "tizonx"[which[i]];
  }
  f.type = lcs ? LCS_TRACE : BIN_TRACE;
  const uint64_t RAW[] = {5, 0x8182838485868788ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x0102030405060708ull, 0x40};
  for (int i = 0; i < 6; i++) {
    Rec r;
    std::string s;
    for (size_t k = 0; k < chars.size(); k++) {
      int64_t val;
      put_typed(s, chars[k], RAW[(i + k) % 6], val);
      if (which[k] == F_OP) {  // an enumeration: keep it in range
        s.resize(s.size() - (chars[k] == 'q' || chars[k] == 'Q' || chars[k] == 'd' ? 8 : chars[k] == 'h' || chars[k] == 'H' ? 2 : strchr("cbB", chars[k]) ? 1 : 4));
        put_typed(s, chars[k], 1 + i, val);
      }
      if (which[k] >= 0) r.set((Field)which[k], val);
    }
    f.item = s.size();
    f.recs.push_back(r);
    f.enc.push_back(s);
  }
  std::string fs = "<" + chars;
  if (lcs) {
    static lcs_trace_header_t h;
    memset(&h, 0, sizeof h);
    h.start_magic = LCS_TRACE_START_MAGIC;
    h.end_magic = LCS_TRACE_END_MAGIC;
    strcpy(h.format, fs.c_str());
    h.obj_id_field = pos[F_ID], h.time_field = pos[F_TIME], h.obj_size_field = pos[F_SIZE], h.op_field = pos[F_OP];
    h.next_access_vtime_field = pos[F_NEXT];
    h.n_fields = chars.size();
    h.item_size = f.item;
    f.head.assign((const char *)&h, sizeof h);
  } else {
    f.needs_init = true;
    int p_id = pos[F_ID], p_t = pos[F_TIME], p_s = pos[F_SIZE], p_o = pos[F_OP], p_n = pos[F_NEXT];
    f.init = [=](reader_init_param_t &p) {
      static char buf[256];
      strcpy(buf, fs.c_str());
      p.binary_fmt_str = buf;
      p.obj_id_field = p_id, p.time_field = p_t, p.obj_size_field = p_s, p.op_field = p_o, p.next_access_vtime_field = p_n;
    };
  }
  return f;
}
static std::vector<Fmt> fmt_string_formats() {
  std::vector<Fmt> v;
  for (int lcs = 0; lcs < 2; lcs++) {
    // every type in every field
    for (char t : std::string("cbBhHiIlLqQfd")) {
      v.push_back(fmt_string_format(std::string("I") + t + "IH", {F_TIME, F_ID, F_SIZE, F_OP}, lcs));
      v.push_back(fmt_string_format(std::string(1, t) + "QIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, lcs));
      v.push_back(fmt_string_format(std::string("IQ") + t + "q", {F_TIME, F_ID, F_SIZE, F_NEXT}, lcs));
      v.push_back(fmt_string_format(std::string("IQI") + t + "B", {F_TIME, F_ID, F_SIZE, F_OP, -1}, lcs));
      v.push_back(fmt_string_format(std::string("IQI") + t, {F_TIME, F_ID, F_SIZE, F_NEXT}, lcs));
    }
    // every order of the fields
    std::vector<int> p = {0, 1, 2, 3};
    do {
      const char ty[] = {'I', 'Q', 'I', 'H'};
      std::string c;
      std::vector<int> w;
      for (int x : p) c += ty[x], w.push_back(x);
      v.push_back(fmt_string_format(c, w, lcs));
      c.insert(1, "B");
      w.insert(w.begin() + 1, -1);
      v.push_back(fmt_string_format(c, w, lcs));
    } while (std::next_permutation(p.begin(), p.end()));
    v.push_back(fmt_string_format("Q", {F_ID}, lcs));
    v.push_back(fmt_string_format("IQ", {F_TIME, F_ID}, lcs));
    v.push_back(fmt_string_format("BQ", {-1, F_ID}, lcs));
    v.push_back(fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, lcs));
  }
  return v;
}

// ---------------------------------------------------------------- text traces
static Fmt csv_format(const std::string &name, char delim, bool auto_delim, int header, bool header_set, const std::string &cols,
                      const std::string &eol, bool open_last, const std::string &blank, int idkind, bool quote = false,
                      bool spaces = false, const std::string &blank0 = "") {
  // cols: t time, i id, s size, c count, x other;  idkind: 0 decimal, 1 text, 2 hexadecimal
  Fmt f;
  f.name = "csv:" + name;
  f.type = CSV_TRACE;
  f.sep_last = eol;
  f.last_open = open_last;
  f.blank = blank;
  f.blank0 = blank0;
  f.needs_init = true;
  f.own_zero = cols.find('s') != std::string::npos;
  f.one_id = idkind == 1;
  std::string d(1, delim);
  const uint64_t ids[] = {3, 0xffffffffffffffffull, 0x8000000000000005ull, 0x100000003ull, 3, 12};
  const int64_t szs[] = {1, 0xffffffffll, 0x100000010ll, 4096, 0, 70000};
  const char *txt[] = {"a", "obj-bb", "A", "/x/y?z=1", "a", "0"};
  const int cnts[] = {1, 3, 2, 1, 4, 1};
  for (int i = 0; i < 6; i++) {
    Rec r;
    std::string s;
    for (size_t k = 0; k < cols.size(); k++) {
      std::string x;
      char b[64];
      switch (cols[k]) {
        case 't': x = std::to_string(U32[i]); r.set(F_TIME, U32[i]); break;
        case 'T': x = std::to_string(U32[i]) + ".75"; r.set(F_TIME, U32[i]); break;
        case 'U': {  // times in microseconds or nanoseconds
          static const uint64_t wide[] = {1700000000123456ull, 0x100000000ull, 9007199254740991ull, 1, 4294967295ull, 0x200000007ull};
          x = std::to_string(wide[i]);
          r.set(F_TIME, wide[i]);
          break;
        }
        case 'i':
          if (idkind == 1) x = txt[i], r.text = txt[i];
          else {
            snprintf(b, sizeof b, idkind == 2 ? "0x%llx" : "%llu", (unsigned long long)ids[i]);
            x = b;
          }
          r.set(F_ID, ids[i]);
          break;
        case 's': x = std::to_string(szs[i]); r.set(F_SIZE, szs[i]); r.zero = szs[i] == 0; break;
        case 'c': x = std::to_string(cnts[i]); r.cnt = cnts[i]; break;
        default: x = "f" + std::to_string(i); break;
      }
      if (quote) x = "\"" + x + "\"";
      if (spaces) x = " " + x + " ";
      s += (k ? d : "") + x;
    }
    f.recs.push_back(r);
    f.enc.push_back(s);
  }
  if (header) {
    for (size_t k = 0; k < cols.size(); k++) f.head += (k ? d : "") + (header == 2 ? "a" : "column_") + cols[k];
    f.head += eol;
  }
  auto at = [&](char c) { size_t p = cols.find(c); return p == std::string::npos ? 0 : (int)p + 1; };
  int ct = at('t') ? at('t') : at('T') ? at('T') : at('U'), ci = at('i'), cs = at('s'), cc = at('c');
  f.init = [=](reader_init_param_t &p) {
    p.time_field = ct, p.obj_id_field = ci, p.obj_size_field = cs, p.cnt_field = cc;
    p.delimiter = auto_delim ? '\0' : delim;
    p.has_header_set = header_set;
    p.has_header = header_set && header;
    p.obj_id_is_num = idkind != 1;
  };
  if (auto_delim || !header_set) f.min_rec = header ? 0 : 1;
  else f.min_rec = header ? 0 : 1;
  return f;
}
static Fmt txt_format(const std::string &name, const std::string &eol, bool open_last, const std::string &blank, int idkind, const std::string &blank0 = "") {
  Fmt f;
  f.name = "txt:" + name;
  f.type = PLAIN_TXT_TRACE;
  f.sep_last = eol;
  f.last_open = open_last;
  f.blank = blank;
  f.blank0 = blank0;
  f.needs_init = idkind != 1;
  f.one_id = idkind == 1;
  const uint64_t ids[] = {3, 0xffffffffffffffffull, 0x8000000000000005ull, 0, 3, 12};
  const char *txt[] = {"a", "obj-bb", "A", "some much longer name, with blanks", "a", "0"};
  for (int i = 0; i < 6; i++) {
    Rec r;
    r.set(F_ID, ids[i]);
    char b[64];
    if (idkind == 1) r.text = txt[i];
    snprintf(b, sizeof b, idkind == 2 ? "0x%llx" : "%llu", (unsigned long long)ids[i]);
    f.recs.push_back(r);
    f.enc.push_back(idkind == 1 ? txt[i] : b);
  }
  f.init = [=](reader_init_param_t &p) { p.obj_id_is_num = idkind != 1; };
  f.min_rec = 0;
  if (!blank0.empty()) f.min_rec = 0;
  return f;
}
static std::vector<Fmt> wide_formats() {  // times that do not fit 32 bits
  std::vector<Fmt> v;
  v.push_back(csv_format("wide-time", ',', false, 0, true, "Uis", "\n", false, "", 0));
  v.push_back(csv_format("wide-time-hdr", '\t', false, 1, true, "iUsc", "\n", false, "", 0));
  return v;
}
static std::vector<Fmt> text_formats() {
  std::vector<Fmt> v;
  for (char d : std::string(",\t|:;")) {
    std::string n = d == '\t' ? "tab" : std::string(1, d);
    v.push_back(csv_format(n + "-plain", d, false, 0, true, "tis", "\n", false, "", 0));
    v.push_back(csv_format(n + "-hdr", d, false, 1, true, "tis", "\n", false, "", 0));
    if (d != ';') v.push_back(csv_format(n + "-auto", d, true, 0, true, "tis", "\n", false, "", 0));
    if (d != ';') v.push_back(csv_format(n + "-autohdr", d, true, 1, false, "tis", "\n", false, "", 0));
    v.push_back(csv_format(n + "-detect-hdr", d, false, 1, false, "tis", "\n", false, "", 0));
    v.push_back(csv_format(n + "-detect-nohdr", d, false, 0, false, "tis", "\n", false, "", 0));
  }
  std::vector<std::string> cols = {"tis", "tsi", "its", "ist", "sti", "sit", "ti", "i", "it", "is", "xtxis", "xixxsxt", "Tis", "tisc", "cit", "ci", "xcxis", "tisxx"};
  for (auto &c : cols)
    if (c.size() > 1) v.push_back(csv_format("cols-" + c, ',', false, 0, true, c, "\n", false, "", 0));
  for (auto &c : {"tis", "its", "xtxis", "tisc"}) v.push_back(csv_format(std::string("hdr-cols-") + c, ',', false, 1, true, c, "\n", false, "", 0));
  v.push_back(csv_format("open", ',', false, 0, true, "tis", "\n", true, "", 0));
  v.push_back(csv_format("open-hdr", ',', false, 1, true, "tis", "\n", true, "", 0));
  v.push_back(csv_format("crlf", ',', false, 0, true, "tis", "\r\n", false, "", 0));
  v.push_back(csv_format("crlf-hdr", ',', false, 1, true, "tis", "\r\n", false, "", 0));
  v.push_back(csv_format("crlf-idlast", ',', false, 0, true, "tsi", "\r\n", false, "", 1));
  v.push_back(csv_format("blank", ',', false, 0, true, "tis", "\n", false, "\n", 0));
  v.push_back(csv_format("blank-cnt", ',', false, 0, true, "tisc", "\n", false, "\n\n", 0));
  v.push_back(csv_format("blank-hdr", ',', false, 1, true, "tis", "\n", false, "\n", 0, false, false, "\n"));
  v.push_back(csv_format("text", ',', false, 0, true, "tis", "\n", false, "", 1));
  v.push_back(csv_format("text-last", ',', false, 1, true, "tsi", "\n", true, "", 1));
  v.push_back(csv_format("text-first", '\t', false, 0, true, "ist", "\n", false, "", 1));
  v.push_back(csv_format("hex", ',', false, 0, true, "tis", "\n", false, "", 2));
  v.push_back(csv_format("quoted", ',', false, 0, true, "tis", "\n", false, "", 0, true));
  v.push_back(csv_format("quoted-text", ',', false, 0, true, "its", "\n", false, "", 1, true));
  v.push_back(csv_format("spaces", ',', false, 0, true, "tis", "\n", false, "", 0, false, true));
  for (int k = 0; k < 3; k++) {
    std::string n = k == 0 ? "num" : k == 1 ? "text" : "hex";
    v.push_back(txt_format(n, "\n", false, "", k));
    v.push_back(txt_format(n + "-open", "\n", true, "", k));
    v.push_back(txt_format(n + "-blank", "\n", false, "\n", k));
    v.push_back(txt_format(n + "-blank0", "\n", true, "\n\n", k, "\n"));
  }
  v.push_back(txt_format("num-crlf", "\r\n", false, "", 0));
  return v;
}
