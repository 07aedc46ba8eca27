// B-series: bit level streams against a reference model
#include "common.h"
#include "bits.h"

static void sample_reader(pbt::Source& s, ReaderRun& r, size_t B, const Bytes& d, const char* mode) {
    if (s.want_sample()) { std::ostringstream o; o << mode << " buffer=" << B << " data=" << d.size() << " bytes, ops: " << r.log.str().substr(0, 400); s.sample(o.str()); }
}

PBT_PROP(reader_model, 6, 0) {
    QuietStdout q;
    size_t B = gen_bufsize(s); Bytes d = gen_data(s, B);
    CResource<Store> st(new Store); st->data = d; st->lazy_eof = s.chance(40);
    s.say("buffer " + std::to_string(B) + " data " + std::to_string(d.size()) + (st->lazy_eof ? " lazy eof" : "") + " " + hex(d));
    bitstream<Store> bs(st, (uint32_t)B);
    ReaderRun r(s, bs, d); r.run();
    bool multi = d.size() > B;
    s.label(multi ? "refill" : "single-buffer"); if (r.ends) s.label("hit-end"); if (r.seeks) s.label("seek"); if (st->lazy_eof) s.label("lazy-eof");
    if (r.ops >= 2 && (multi || r.ends || r.seeks)) s.nontrivial();
    sample_reader(s, r, B, d, st->lazy_eof ? "lazy-eof" : "sync");
}

PBT_PROP(reader_fixed_memory, 1, 0) {
    QuietStdout q;
    Bytes d = s.blob((size_t)s.small(1, 300));
    std::unique_ptr<uint8_t[]> mem(new uint8_t[d.size()]); memcpy(mem.get(), d.data(), d.size());
    fixed_memory_bitstream bs(mem.get(), d.size());
    ReaderRun r(s, bs, d); r.run();
    s.label("fixed-memory"); if (r.ends) s.label("hit-end"); if (r.ops >= 2 && (r.ends || r.seeks)) s.nontrivial();
    sample_reader(s, r, d.size(), d, "fixed-memory");
}

// positions far beyond what fits in memory: a storage whose bytes are a function of their position
namespace { struct FarStore : Ibitstream_storage {
    uint64_t size = 0, pos = 0; uint32_t salt = 0; Deliverer* dl = nullptr;
    uint8_t at(uint64_t i) const { uint64_t x = (i + salt) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 40); }
    void read(uint32_t n, Ibitstream_cb* cb) override { uint64_t rem = pos < size ? size - pos : 0; n = (uint32_t)std::min<uint64_t>(n, rem); std::unique_ptr<uint8_t[]> b(new uint8_t[n ? n : 1]); for (uint32_t i = 0; i < n; ++i) b[i] = at(pos + i); pos += n; cb->read_cb(b.get(), n); }
    void write(const unsigned char*, uint32_t n, Ibitstream_cb* cb) override { cb->write_cb(n); }
    bool eof() override { return pos >= size; }
    void flush() override {}
    uint64_t get_position() const override { return pos; }
    void set_position(uint64_t r) override { pos = r; }
    void idle() override {}
}; }
PBT_PROP(reader_far, 2, 0) {
    QuietStdout q; size_t B = gen_bufsize(s); CResource<FarStore> st(new FarStore); st->size = s.edgy(1ull << 20, 1ull << 44); st->salt = (uint32_t)s.edgy(0, ~0u); uint64_t total = st->size * 8, P = 0; bitstream<FarStore> bs(st, (uint32_t)B); std::ostringstream log; log << "size " << st->size << " buffer " << B << ": "; unsigned ops = 0, far = 0;
    auto bits = [&](uint64_t p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v = v << 1 | (st->at((p + i) >> 3) >> (7 - ((p + i) & 7)) & 1); return (uint32_t)v; };
    while (s.more(14) && ops++ < 60) { s.say(log.str());
        switch (s.pick({ 5, 6, 2, 3, 3, 2 })) {
        case 0: { uint64_t t = s.chance(40) ? (1ull << s.range(20, 44)) + s.range(0, 40) - 20 : s.edgy(0, st->size); if (t > st->size) t = st->size; log << "seek " << t << "; "; bs.set_position(t); P = t * 8; if (t > 0x20000000ull) ++far; break; }
        case 1: { unsigned n = (unsigned)s.edgy(0, 32); log << "get " << n << "; "; uint32_t v = 0; bool e = false; try { v = bs.getbits((short)n); } catch (EndOfData&) { e = true; } PBT_EQ((int)e, (int)(P + n > total), "end of data at bit " << P << " after " << log.str()); if (!e) { PBT_EQ(v, bits(P, n), "bits at " << P << " after " << log.str()); P += n; } break; }
        case 2: { unsigned n = (unsigned)s.edgy(1, 32); if (P + n > total) break; log << "peek " << n << "; "; PBT_EQ(bs.nextbits((short)n), bits(P, n), "bits at " << P << " after " << log.str()); break; }
        case 3: { unsigned n = (unsigned)s.edgy(0, 32767); log << "skip " << n << "; "; bs.skipbits((short)n); P = std::min(P + n, total); break; }
        case 4: { if (P & 7) { bs.align(8); P = (P + 7) / 8 * 8; } uint32_t n = (uint32_t)s.small(0, 400), got = 0; log << "read " << n << "; "; std::unique_ptr<uint8_t[]> o(new uint8_t[n ? n : 1]); bs.read(o.get(), n, &got); uint32_t want = (uint32_t)std::min<uint64_t>(n, (total - P) / 8); PBT_EQ(got, want, "bytes at " << P / 8 << " after " << log.str()); for (uint32_t i = 0; i < got; ++i) PBT_EQ(o[i], st->at(P / 8 + i), "byte " << P / 8 + i << " after " << log.str()); P += got * 8ull; break; }
        default: { uint64_t t = (P + 63) / 64 * 64; if (t > total) break; log << "align; "; PBT_EQ(bs.align(64), (uint32_t)(t - P), "bits skipped"); P = t; break; }
        }
        PBT_EQ(bs.getpos(), P, "bit position after " << log.str()); PBT_EQ(bs.get_position(), P >> 3, "byte position after " << log.str()); PBT_EQ((int)bs.eof(), (int)(P == total), "end flag after " << log.str()); }
    if (far) { s.label("beyond-512MiB"); if (ops > 2) s.nontrivial(); } if (s.want_sample()) s.sample(log.str().substr(0, 300));
}

static void model_put(std::vector<bool>& b, uint64_t& P, uint32_t v, unsigned n) {
    for (unsigned i = 0; i < n; ++i) { bool bit = (v >> (n - 1 - i)) & 1; if (P >= b.size()) b.resize(P + 1); b[P++] = bit; }
}
static Bytes pack(const std::vector<bool>& b) { Bytes o((b.size() + 7) / 8); for (size_t i = 0; i < b.size(); ++i) if (b[i]) o[i >> 3] |= 0x80 >> (i & 7); return o; }

// a writer history against a bit vector.  get() returns the storage's bytes
struct WriterRun {
    pbt::Source& s; IBitstream& bs; std::function<Bytes()> get; std::vector<bool> m; uint64_t P = 0; std::ostringstream log; unsigned ops = 0, overw = 0, flushes = 0; bool can_seek = true; size_t payload = 0;
    Deliverer* dl = nullptr;
    WriterRun(pbt::Source& s_, IBitstream& b, std::function<Bytes()> g) : s(s_), bs(b), get(g) {}
    void note(const std::string& t) { s.say(t); if (ops < 40) log << t << "; "; }
    void check_bytes(const char* when) {
        Bytes got = get(), want = pack(m);
        // bits of an unfinished byte stay in the stream
        if (P & 7) want.resize(std::max<size_t>(P >> 3, 0) < want.size() && P == m.size() ? P >> 3 : want.size());
        if (got != want) {
            size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            PBT_CHECK(false, when << ": stored bytes differ at offset " << i << " (stored " << got.size() << ", expected " << want.size() << " bytes): got " << hex(got.data() + i, got.size() - i, 8) << " expected " << hex(want.data() + i, want.size() - i, 8));
        }
    }
    void align_here(int a) {
        uint64_t t = (P + a - 1) / a * a; uint32_t r = bs.align(a);
        PBT_EQ(r, (uint32_t)(t - P), "align(" << a << ") while writing at bit " << P << ": bits written");
        while (P < t) model_put(m, P, 0, 1);
    }
    // put() and friends inside already written data change only whole bytes that are completely rewritten;
    // callers rewrite whole fields, so the model only overwrites byte aligned units
    void step() {
        ++ops; std::ostringstream o;
        bool over = P < m.size();   // rewriting: keep to byte multiples
        switch (s.pick({ 12, 4, 4, 2, 5, 3, 3 })) {
        case 0: { unsigned n = over ? 8 * (unsigned)s.range(0, 4) : (unsigned)s.edgy(0, 32); uint32_t v = (uint32_t)s.edgy(0, 0xffffffff); o << "putbits(" << v << "," << n << ")@" << P; note(o.str());
            bs.putbits(v, (short)n); model_put(m, P, v, n); break; }
        case 1: { unsigned n = over ? 8 * (unsigned)s.range(0, 4) : (unsigned)s.edgy(0, 32); uint32_t v = (uint32_t)s.edgy(0, 0xffffffff); o << "little_putbits(" << v << "," << n << ")@" << P; note(o.str());
            bs.little_putbits(v, (int)n); unsigned i = 0; for (; i < n / 8; ++i) model_put(m, P, v >> (8 * i), 8); if (n % 8) model_put(m, P, v >> (8 * i), n % 8); break; }
        case 2: { static const int al[] = { 8, 16, 32, 64, 24 }; int a = over ? 8 : al[s.range(0, 4)]; o << "align(" << a << ")@" << P; note(o.str()); align_here(a); break; }
        case 3: { unsigned n = over ? 8 * (unsigned)s.small(0, 3) : (unsigned)s.small(0, 700); o << "skipbits(" << n << ")@" << P; note(o.str());
            bs.skipbits((short)n); for (unsigned i = 0; i < n; ++i) model_put(m, P, 0, 1); break; }
        case 4: { if (P & 7) align_here(8); Bytes b = s.blob((size_t)(s.chance(20) ? s.small(1, 3000) : s.small(1, 40))); o << "write(" << b.size() << ")@" << P; note(o.str()); payload += b.size();
            std::unique_ptr<uint8_t[]> mem(new uint8_t[b.size()]); memcpy(mem.get(), b.data(), b.size());
            bs.write(mem.get(), (uint32_t)b.size()); mem.reset(); for (uint8_t x : b) model_put(m, P, x, 8); break; }
        case 5: { o << "flush@" << P; note(o.str()); bs.flush(); ++flushes; check_bytes("after flush"); break; }
        default: { if (!can_seek) break; if (P & 7) align_here(8); uint64_t top = m.size() / 8; uint64_t q = s.chance(30) ? top : s.range(0, top); o << "set_position(" << q << ")@" << P; note(o.str());
            bs.set_position(q); P = q * 8; if (q < top) ++overw; break; }
        }
        PBT_EQ(bs.getpos(), P, "bit position while writing");
        PBT_EQ(bs.get_position(), P >> 3, "byte position while writing");
    }
    void run() {
        unsigned n = 0; while (s.more(16) && n++ < 80) step();
        if (P < m.size()) { bs.flush(); bs.set_position(m.size() / 8); P = m.size(); }
        if (P & 7) align_here(8);
        bs.flush(); check_bytes("at the end");
    }
};

PBT_PROP(writer_model, 5, 0) {
    QuietStdout q; size_t B = gen_bufsize(s);
    CResource<Store> st(new Store);
    s.say("buffer " + std::to_string(B));
    bitstream<Store> bs(st, false, (uint32_t)B);
    WriterRun w(s, bs, [&] { return st->data; }); w.run();
    s.label(w.m.size() / 8 > B ? "auto-flush" : "one-buffer"); if (w.overw) s.label("overwrite"); if (w.payload) s.label("raw-write");
    if (w.ops >= 3 && (w.m.size() / 8 > B || w.overw || w.flushes)) s.nontrivial();
    if (s.want_sample()) s.sample("writer buffer=" + std::to_string(B) + " bytes=" + std::to_string(w.m.size() / 8) + " ops: " + w.log.str().substr(0, 400));
}

PBT_PROP(writer_memory, 2, 0) {
    QuietStdout q; uint32_t init = (uint32_t)s.small(1, 4000); size_t B = gen_bufsize(s);
    write_memory_bitstream bs(init, (uint32_t)B);
    s.say("memory writer initial " + std::to_string(init) + " buffer " + std::to_string(B));
    WriterRun w(s, bs, [&] { return Bytes(bs.get_buffer(), bs.get_buffer() + bs.get_size()); }); w.run();
    s.label(w.m.size() / 8 > init ? "grown" : "fits"); if (w.overw) s.label("overwrite");
    if (w.ops >= 3 && (w.m.size() / 8 > init || w.overw || w.flushes)) s.nontrivial();
    if (s.want_sample()) s.sample("memory writer initial=" + std::to_string(init) + " bytes=" + std::to_string(w.m.size() / 8) + " ops: " + w.log.str().substr(0, 400));
}

// what was written is read back, field by field, whatever the two buffer sizes are
PBT_PROP(write_read_roundtrip, 4, 0) {
    QuietStdout q; size_t B1 = gen_bufsize(s), B2 = gen_bufsize(s);
    CResource<Store> st(new Store);
    struct F { int kind; unsigned n; uint32_t v; Bytes b; }; std::vector<F> fs; uint64_t bits = 0;
    {
        bitstream<Store> bs(st, false, (uint32_t)B1);
        unsigned k = 0;
        while (s.more(20) && k++ < 120) {
            F f; f.kind = (int)s.pick({ 10, 4, 3, 3, 2 });
            switch (f.kind) {
            case 0: f.n = (unsigned)s.edgy(0, 32); f.v = (uint32_t)s.edgy(0, tmask[f.n]); bs.putbits(f.v, (short)f.n); bits += f.n; break;
            case 1: f.n = (unsigned)s.edgy(0, 32); f.v = (uint32_t)s.edgy(0, tmask[f.n]); bs.little_putbits(f.v, (int)f.n); bits += f.n; break;
            case 2: f.n = 8u << s.range(0, 3); f.v = bs.align((int)f.n); bits += f.v; break;
            case 3: if (bits & 7) bits += bs.align(8); f.b = s.blob((size_t)s.small(1, 300)); bs.write(f.b.data(), (uint32_t)f.b.size()); bits += 8 * f.b.size(); break;
            default: bs.flush(); break;
            }
            fs.push_back(f);
        }
        bs.align(8); bs.flush();
    }
    PBT_EQ(st->data.size(), (size_t)((bits + 7) / 8), "bytes stored");
    st->set_position(0);
    CResource<Store> st2(new Store); st2->data = st->data; st2->lazy_eof = s.chance(30);
    bitstream<Store> rd(st2, (uint32_t)B2);
    size_t i = 0;
    for (auto& f : fs) {
        switch (f.kind) {
        case 0: PBT_EQ(rd.getbits((short)f.n), f.v, "field " << i << " of " << f.n << " bits"); break;
        case 1: PBT_EQ(rd.little_getbits((int)f.n), f.v, "little endian field " << i << " of " << f.n << " bits"); break;
        case 2: PBT_EQ(rd.align((int)f.n), f.v, "padding before field " << i); break;
        case 3: { rd.align(8); std::unique_ptr<uint8_t[]> o(new uint8_t[f.b.size()]); uint32_t got = 0; rd.read(o.get(), (uint32_t)f.b.size(), &got);
            PBT_EQ((size_t)got, f.b.size(), "block " << i << " length"); PBT_CHECK(!memcmp(o.get(), f.b.data(), got), "block " << i << " differs"); break; }
        }
        ++i;
    }
    rd.align(8); PBT_CHECK(rd.eof(), "data left after the last field");
    s.label(st->data.size() > B2 ? "refill" : "one-buffer");
    if (fs.size() >= 2 && bits) s.nontrivial();
    if (s.want_sample()) { std::ostringstream o; o << "fields=" << fs.size() << " bits=" << bits << " wbuf=" << B1 << " rbuf=" << B2 << " stored=" << hex(st->data, 24); s.sample(o.str()); }
}

// completions arriving from another thread change nothing
PBT_PROP(reader_async, 3, pbt::NONDET) {
    QuietStdout q; size_t B = gen_bufsize(s); Bytes d = gen_data(s, B);
    Deliverer dl;
    CResource<Store> st(new Store); st->data = d; st->dl = &dl; st->src = &s;
    s.say("async buffer " + std::to_string(B) + " data " + std::to_string(d.size()) + " " + hex(d));
    {
        bitstream<Store> bs(st, (uint32_t)B);
        ReaderRun r(s, bs, d); r.dl = &dl; r.run();
        bool multi = d.size() > B;
        s.label(multi ? "refill" : "single-buffer"); if (r.ends) s.label("hit-end"); if (r.seeks) s.label("seek");
        if (r.ops >= 2 && (multi || r.ends || r.seeks)) s.nontrivial();
        sample_reader(s, r, B, d, "async");
    }
}

// copy_stream moves exactly the requested byte range, in order, and has written all of it when it returns
PBT_PROP(copy_range, 3, pbt::NONDET) {
    QuietStdout q; size_t n = (size_t)(s.chance(30) ? s.range(0, 20000) : s.small(0, 300)); Bytes d = s.blob(n);
    int mode = (int)s.pick({ 4, 2, 2, 2 });     // bit 0: asynchronous destination, bit 1: asynchronous source
    Deliverer rd, wr;
    Store src, dst; src.ordered = dst.ordered = true; src.data = d; src.lazy_eof = s.chance(30) && !(mode & 2);
    if (mode & 2) { src.dl = &rd; src.src = &s; }
    if (mode & 1) { dst.dl = &wr; if (!(mode & 2)) dst.src = &s; }   // the choices are drawn on this thread only
    uint32_t chunk = (uint32_t)(s.chance(20) ? s.range(1, 9000) : s.small(1, 64));
    uint64_t start = s.chance(50) ? 0 : s.range(0, n), end = s.chance(40) ? 0 : s.edgy(start ? start : 1, n + 5);
    if (end && end <= start) end = start ? start : 1;
    { size_t lim = mode ? 40 : 1500; if (n / chunk > lim) chunk = (uint32_t)(n / lim + 1); }
    std::ostringstream o; o << "size=" << n << " chunk=" << chunk << " range=[" << start << "," << end << ") mode=" << mode << (src.lazy_eof ? " lazy-eof" : ""); s.say(o.str());
    Bytes before = s.blob((size_t)s.small(0, 20)); dst.data = before; dst.pos = before.size(); src.pos = s.chance(40) ? s.range(0, n) : 0; if (src.pos) o << " source at " << src.pos;
    copy_stream(src, dst, chunk, start, end);
    uint64_t e = end && end < n ? end : n; if (end == start && end) e = start; Bytes want = before; if (start < e) want.insert(want.end(), d.begin() + start, d.begin() + e);
    size_t i = 0; while (i < want.size() && i < dst.data.size() && want[i] == dst.data[i]) ++i;
    PBT_CHECK(dst.data == want, o.str() << ": destination has " << dst.data.size() << " bytes, expected " << want.size() << ", first difference at " << i);
    PBT_CHECK(src.data == d, "source changed");
    s.label(mode ? "async" : "sync"); if (end) s.label("bounded"); if (n > chunk) { s.label("many-chunks"); s.nontrivial(); }
    if (s.want_sample()) s.sample(o.str());
}
