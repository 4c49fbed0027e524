// C24: compression codecs and the encoder built from them
#include <amelie_test_scope>
#include <zstd.h>
#include "pbt.h"
#include "util.h"
#include "rows.h"
#include "store.h"

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static uint32_t ref_crc(uint32_t crc, const uint8_t* p, int n)
{
	for (int i = 0; i < n; i++) { crc ^= p[i]; for (int k = 0; k < 8; k++) crc = crc >> 1 ^ (crc & 1 ? 0x82f63b78u : 0); }
	return crc;
}
static uint8_t* gen(int* size)
{
	int n = PICK(4) == 0 ? PICK(4) == 0 ? 100000 + PICK(400000) : PICK(70000) : pbt_size(3000);
	uint8_t* p = malloc(n ? n : 1);
	int kind = PICK(4); uint64_t seed = PICK(1000);
	for (int i = 0; i < n; i++) p[i] = kind == 0 ? (uint8_t)seed : kind == 1 ? mix(seed + i) : kind == 2 ? "the row of a table "[i % 19] : i % 97 < 60 ? 'a' + mix(i / 97) % 26 : mix(seed + i);
	*size = n;
	return p;
}
static bool decode(Codec* c, uint8_t* dst, int n, uint8_t* src, int size) { return ! error_catch( codec_decode(c, dst, n, src, size); ); }

static CodecCache cache;
static StorageMgr storages;
static Storage *with_zstd, *with_none, *with_empty;
static void setup(void)
{
	codec_cache_init(&cache);
	base_create();
	storage_mgr_init(&storages);
	storage_make(&storages, "s0", "zstd"); storage_make(&storages, "s1", "none"); storage_make(&storages, "s2", "");
	Str s;
	str_set_cstr(&s, "s0"); with_zstd = storage_mgr_find(&storages, &s, true);
	str_set_cstr(&s, "s1"); with_none = storage_mgr_find(&storages, &s, true);
	str_set_cstr(&s, "s2"); with_empty = storage_mgr_find(&storages, &s, true);
}
// any use of a codec before does not change what follows
static void case_codec(void)
{
	enum { N = 4 };
	Codec* c[N]; int n = 1 + PICK(N);
	for (int i = 0; i < n; i++) {
		c[i] = compression_create(&cache, COMPRESSION_ZSTD, PICK(2) ? 0 : 1 + PICK(9));
		pbt_check(c[i] && c[i]->iface->id == COMPRESSION_ZSTD, "codec is not created");
		for (int j = 0; j < i; j++) pbt_check(c[i] != c[j], "codec is given twice");
	}
	pbt_check(compression_create(&cache, COMPRESSION_NONE, 0) == NULL, "codec without compression");
	Buf out; buf_init(&out);
	bool big = false;
	for (int round = 0; round < 6 && pbt_more(3) && ! pbt_exhausted(); round++) {
		auto codec = c[PICK(n)];
		int size; uint8_t* p = gen(&size);
		int prefix = PICK(3) ? 0 : PICK(100);
		buf_reset(&out);
		memset(buf_emplace(&out, prefix), 0xee, prefix);
		// abandoned in the middle
		if (PICK(4) == 0) {
			Buf junk; buf_init(&junk);
			codec_encode_begin(codec, &junk);
			codec_encode(codec, &junk, p, size / 2);
			if (PICK(2)) codec_encode_end(codec, &junk);
			buf_free(&junk);
			pbt_class("abandoned");
		}
		codec_encode_begin(codec, &out);
		int at = 0, chunks = 0;
		bool whole = PICK(2);
		while (at < size) {
			int l = whole ? size : PICK(20) == 0 ? 0 : 1 + PICK(PICK(2) ? size - at : (size - at > 50 ? 50 : size - at));
			if (chunks > 40) l = size - at;
			// chunk is in memory of its own: it is not used later
			uint8_t* t = (uint8_t*)exact((char*)p + at, l);
			if (PICK(2)) codec_encode(codec, &out, t, l);
			else { Buf b; buf_init(&b); buf_write(&b, t, l); codec_encode_buf(codec, &out, &b); buf_free(&b); }
			free(t);
			at += l; chunks++;
		}
		codec_encode_end(codec, &out);
		for (int i = 0; i < prefix; i++) pbt_check(out.start[i] == 0xee, "encoded data overwrites the buffer");
		int en = buf_size(&out) - prefix; uint8_t* e = (uint8_t*)exact((char*)out.start + prefix, en);
		// by the library itself
		uint8_t* d = malloc(size + 1); memset(d, 0x11, size + 1);
		size_t rc = ZSTD_decompress(d, size, e, en);
		pbt_check(rc == (size_t)size && ! memcmp(d, p, size), "encoded data of %d bytes in %d chunks is not what was given", size, chunks);
		auto other = c[PICK(n)];
		memset(d, 0x22, size + 1);
		pbt_check(decode(other, d, size, e, en), "encoded data is not decoded");
		pbt_check(! memcmp(d, p, size) && d[size] == 0x22, "decoded data differs");
		// wrong sizes
		int less = size ? PICK(size) : 0;
		if (size) { uint8_t* t = malloc(less ? less : 1); pbt_check(! decode(other, t, less, e, en), "%d bytes are decoded as %d", size, less); free(t); }
		int more = size + 1 + PICK(100); uint8_t* t = malloc(more);
		pbt_check(! decode(other, t, more, e, en), "%d bytes are decoded as %d", size, more);
		// cut and damaged data
		int cut = PICK(en);
		uint8_t* k = (uint8_t*)exact((char*)e, cut);
		pbt_check(size == 0 || ! decode(other, d, size, k, cut), "data cut at %d of %d is decoded", cut, en);
		free(k);
		for (int q = 0; q < 3; q++) { int bit = PICK(en * 8); e[bit / 8] ^= 1 << bit % 8; decode(other, d, size, e, en); e[bit / 8] ^= 1 << bit % 8; }
		memset(d, 0x33, size + 1);
		pbt_check(decode(other, d, size, e, en) && ! memcmp(d, p, size), "failed decoding changes the codec");
		if (size > 70000) big = true;
		if (size > 100 && chunks > 1) pbt_nontrivial();
		free(p); free(e); free(d); free(t);
		if (PICK(4) == 0) { codec_cache_push(&cache, c[--n]); if (n == 0) { c[0] = compression_create(&cache, COMPRESSION_ZSTD, PICK(10)); n = 1; } }
	}
	if (big) pbt_class("large");
	for (int i = 0; i < n; i++) codec_cache_push(&cache, c[i]);
	buf_free(&out);
}
static void case_encoder(void)
{
	Encoder e; encoder_init(&e);
	pbt_check(! encoder_active(&e) && encoder_compression(&e) == COMPRESSION_NONE, "new encoder has compression");
	for (int round = 0; round < 6 && pbt_more(3) && ! pbt_exhausted(); round++) {
		int id = COMPRESSION_ZSTD;
		switch (PICK(5)) {
		case 0: encoder_open(&e, with_none); id = COMPRESSION_NONE; break;
		case 1: encoder_open(&e, with_empty); id = COMPRESSION_NONE; break;
		case 2: case 3: encoder_open(&e, with_zstd); break;
		case 4: id = PICK(2) ? COMPRESSION_ZSTD : COMPRESSION_NONE; encoder_set_compression(&e, id); break;
		}
		pbt_check(encoder_compression(&e) == id && encoder_active(&e) == (id != COMPRESSION_NONE), "encoder has another compression");
		encoder_reset(&e);
		enum { PARTS = 12 };
		uint8_t* parts[PARTS]; int sizes[PARTS], n = PICK(PARTS), total = 0;
		Buf bufs[PARTS];
		for (int i = 0; i < n; i++) {
			parts[i] = gen(&sizes[i]); total += sizes[i];
			buf_init(&bufs[i]);
			if (PICK(2)) encoder_add(&e, parts[i], sizes[i]);
			else { buf_write(&bufs[i], parts[i], sizes[i]); encoder_add_buf(&e, &bufs[i]); }
		}
		encoder_encode(&e);
		// what is to be written
		Buf all; buf_init(&all);
		for (int i = 0; i < encoder_iov_count(&e); i++) buf_write(&all, encoder_iov(&e)[i].iov_base, encoder_iov(&e)[i].iov_len);
		pbt_check(encoder_iov_crc(&e) == ref_crc(0, all.start, buf_size(&all)), "crc of the encoded data");
		uint8_t* d = malloc(total + 1); d[total] = 0x44;
		if (id == COMPRESSION_NONE) { pbt_check(buf_size(&all) == total, "data of %d bytes is written as %d", total, buf_size(&all)); if (total) memcpy(d, all.start, total); }
		else {
			pbt_check(encoder_iov_count(&e) == 1, "compressed data is in one piece");
			uint8_t* x = (uint8_t*)exact((char*)all.start, buf_size(&all));
			bool failed = error_catch( encoder_decode(&e, d, total, x, buf_size(&all)); );
			pbt_check(! failed, "encoded data is not decoded");
			free(x);
		}
		pbt_check(d[total] == 0x44, "decoding writes past the end");
		int at = 0;
		for (int i = 0; i < n; i++) { pbt_check(! memcmp(d + at, parts[i], sizes[i]), "part %d of %d differs", i, n); at += sizes[i]; free(parts[i]); buf_free(&bufs[i]); }
		if (n > 1 && total > 100) pbt_nontrivial();
		buf_free(&all); free(d);
	}
	pbt_check(encoder_active(&e) == (encoder_compression(&e) != COMPRESSION_NONE), "encoder_active");
	encoder_free(&e);
	pbt_class("encoder");
	// names
	char t[8]; int l = pbt_size(6); pbt_bytes(t, l); static const char* names[] = { "none", "zstd", "zst", "zstdd", "NONE", "", "zstf" };
	Str s; int k = PICK(NELEM(names) + 1);
	if (k < NELEM(names)) str_set_cstr(&s, names[k]); else str_set(&s, t, l);
	int want = str_size(&s) == 0 || str_is_cstr(&s, "none") ? COMPRESSION_NONE : str_is_cstr(&s, "zstd") ? COMPRESSION_ZSTD : -1;
	pbt_check(compression_idof(&s) == want, "compression '%.*s'", str_size(&s), str_of(&s));
}
static void case_run(void) { if (PICK(3)) case_codec(); else case_encoder(); }
PbtHarness pbt_harness = { .name = "stream_codec", .setup = setup, .run = case_run };
