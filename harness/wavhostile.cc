// C36: foreign and damaged WAV files
#include "file.hh"
#include "wav.hh"

using namespace mon;

struct Header
{
	bool accept;
	int rate, channels, bits, frames;
	size_t data;
};

// the accepted dialect: plain PCM with 8 or 16 bits, floating point with 32
static Header parse(const Bytes &b)
{
	Header h = { false, 0, 0, 0, 0, 0 };
	size_t at = 20;
	if (b.size() < 24 || memcmp(&b[0], "RIFF", 4) || memcmp(&b[8], "WAVEfmt ", 8))
		return h;
	int chunk = (int)le(b, 4, 4), sub = (int)le(b, 16, 4), format = (int)le(b, 20, 2);
	if (sub != 16 && sub != 18)
		return h;
	if (b.size() < at + sub)
		return h;
	h.channels = (int16_t)le(b, 22, 2);
	h.rate = (int)le(b, 24, 4);
	int64_t rate = h.rate, bytes = (int)le(b, 28, 4);
	int align = (int16_t)le(b, 32, 2);
	h.bits = (int16_t)le(b, 34, 2);
	if (h.channels < 1 || (h.bits == 32 ? format != 3 : format != 1 || (h.bits != 8 && h.bits != 16)))
		return h;
	if (h.channels * (h.bits / 8) != align || rate * align != bytes)
		return h;
	at += sub;
	if (sub == 18) {
		if (le(b, 36, 2))
			return h;
		if (b.size() < at + 12 || memcmp(&b[at], "fact", 4) || le(b, at + 4, 4) != 4)
			return h;
		h.frames = (int)le(b, at + 8, 4);
		at += 12;
	}
	if (b.size() < at + 8 || memcmp(&b[at], "data", 4))
		return h;
	int data = (int)le(b, at + 4, 4), over = h.bits == 32 ? 58 : 44;
	if (data <= 0 || chunk <= 0)
		h.frames = -1;
	else if (data != (int64_t)chunk - (over - 8))
		return h;
	else if (sub == 16)
		h.frames = data / align;
	h.data = at + 8;
	h.accept = true;
	return h;
}

static Bytes make(int bits, int channels, int rate, int frames, bool ext, Rng &rng, int format = -1)
{
	Bytes b;
	int bytes = bits / 8, size = frames * channels * bytes, over = bits == 32 ? 58 : 44;
	put(b, "RIFF");
	put(b, over - 8 + size, 4);
	put(b, "WAVEfmt ");
	put(b, ext ? 18 : 16, 4);
	put(b, format < 0 ? bits == 32 ? 3 : 1 : format, 2);
	put(b, channels, 2);
	put(b, rate, 4);
	put(b, (uint32_t)((uint64_t)(uint32_t)rate * channels * bytes), 4);
	put(b, channels * bytes, 2);
	put(b, bits, 2);
	if (ext) {
		put(b, 0, 2);
		put(b, "fact");
		put(b, 4, 4);
		put(b, frames, 4);
	}
	put(b, "data");
	put(b, size, 4);
	for (int i = 0; i < frames * channels; ++i) {
		if (bits == 32) {
			float f = (float)rng.sym();
			uint32_t raw;
			memcpy(&raw, &f, 4);
			put(b, raw, 4);
		} else {
			put(b, (uint32_t)rng.next(), bytes);
		}
	}
	return b;
}

template <typename T>
static void look(const std::string &file, const Bytes &b, Rng &rng)
{
	Header h = parse(b);
	Box<DSP::ReadWAV<T>> one(0, file.c_str()), two((int)rng.in(1, 255), file.c_str());
	EQ("hostile.accepted", one->good(), h.accept);
	// nothing left over from whatever was in memory before
	EQ("hostile.memory", two->good(), one->good());
	EQ("hostile.memory", two->rate(), one->rate());
	EQ("hostile.memory", two->channels(), one->channels());
	EQ("hostile.memory", two->bits(), one->bits());
	EQ("hostile.memory", two->frames(), one->frames());
	event(h.accept ? "accepted" : "rejected");
	if (h.accept) {
		EQ("hostile.rate", one->rate(), h.rate);
		EQ("hostile.channels", one->channels(), h.channels);
		EQ("hostile.bits", one->bits(), h.bits);
		EQ("hostile.frames", one->frames(), h.frames);
	}
	int channels = one->channels(), bytes = h.bits / 8;
	if (channels < 1 || channels > 40000)
		return;
	// reading from it never leaves the buffer, be it past the end or rejected
	int n = channels > 50 ? 2 : (int)rng.in(1, 12);
	Buf<T> buf(n * channels);
	for (int i = 0; i < n * channels; ++i)
		buf[i] = T(777);
	one->read(buf.data(), n);
	if (!h.accept) {
		OK("hostile.still-bad", !one->good());
	} else {
		size_t need = h.data + (size_t)n * channels * bytes;
		EQ("hostile.truncated", one->good(), need <= b.size());
		for (int i = 0; i < n * channels && h.data + (size_t)(i + 1) * bytes <= b.size(); ++i) {
			uint32_t raw = le(b, h.data + i * bytes, bytes);
			if (h.bits == 32) {
				float f;
				memcpy(&f, &raw, 4);
				if ((raw >> 23 & 255) != 255 && (raw >> 23 & 255))
					OK("hostile.float", buf[i] == T(f), i);
			} else {
				LD want = h.bits == 8 ? ((int)raw - 128) / 127.L : (int16_t)raw / 32767.L;
				NEAR("hostile.value", buf[i], want, 2 * eps<T>(), i);
			}
		}
	}
	if (h.accept && two->good()) {
		// to some frame, or as far as the file claims to go
		int num = rng.one_in(3) ? (int)(rng.next() >> rng.in(33, 63)) : (int)rng.in(0, 20);
		if (rng.one_in(3) && h.frames > 0)
			num = h.frames - (int)rng.in(0, 1);
		two->skip(num);
		// file systems have limits of their own
		if ((int64_t)num * channels * bytes < (int64_t)1 << 40)
			OK("hostile.skip", two->good());
		two->read(buf.data(), 1);
		size_t at = h.data + (size_t)num * channels * bytes;
		EQ("hostile.skip.end", two->good(), at + channels * bytes <= b.size(), num);
		for (int i = 0; i < channels && at + (i + 1) * bytes <= b.size() && h.bits != 32; ++i) {
			uint32_t raw = le(b, at + i * bytes, bytes);
			NEAR("hostile.skip.value", buf[i], h.bits == 8 ? ((int)raw - 128) / 127.L : (int16_t)raw / 32767.L, 2 * eps<T>(), num, i);
		}
		event("skips");
	}
}

template <typename T>
static void all(Rng &rng)
{
	std::string file = path("h.wav");
	for (int c = 0; c < cases(2500, 60000); ++c) {
		static const int B[] = { 8, 16, 32 };
		int bits = B[rng.in(0, 2)], channels = (int)rng.in(1, 4), frames = (int)rng.in(0, 12);
		Bytes b = make(bits, channels, (int)rng.in(1, 48000), frames, bits == 32, rng);
		int kind = c % 17;
		switch (kind) {
		case 0:
			break;
		case 1:	// cut anywhere
			b.resize(rng.in(0, b.size()));
			break;
		case 2:	// flipped bits
			for (int i = (int)rng.in(1, 3); i > 0; --i)
				b[rng.in(0, std::min(b.size(), (size_t)58) - 1)] ^= 1 << rng.in(0, 7);
			break;
		case 3:	// other bytes
			for (int i = (int)rng.in(1, 6); i > 0; --i)
				b[rng.in(0, std::min(b.size(), (size_t)58) - 1)] = (unsigned char)rng.next();
			break;
		case 4:	// extreme fields
			for (int i = (int)rng.in(1, 3); i > 0; --i) {
				static const uint32_t V[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 24, 18, 16 };
				static const int F[][2] = { { 4, 4 }, { 16, 4 }, { 20, 2 }, { 22, 2 }, { 24, 4 }, { 28, 4 }, { 32, 2 }, { 34, 2 }, { 36, 2 }, { 40, 4 }, { 42, 4 }, { 46, 4 }, { 54, 4 } };
				const int *f = F[rng.in(0, 12)];
				uint32_t v = V[rng.in(0, 15)];
				for (int k = 0; k < f[1] && f[0] + k < (int)b.size(); ++k)
					b[f[0] + k] = (unsigned char)(v >> (8 * k));
			}
			break;
		case 5:	// noise
			b.resize(rng.in(0, 80));
			for (auto &v : b)
				v = (unsigned char)rng.next();
			break;
		case 6:	// unknown length, as when recording
			for (int k = 0; k < 4; ++k) {
				if (c & 1)
					b[4 + k] = c & 16 ? 0 : 255;
				else
					b[(bits == 32 ? 54 : 40) + k] = c & 16 ? 0 : 255;
			}
			break;
		case 7: {	// consistent but unusual rates and channels
			int ch = (int)std::abs(rng.loguni(1, 40000));
			uint32_t rate = (uint32_t)rng.next();
			b = make(bits, ch & 65535, (int)(rate >> rng.in(0, 31)), 0, bits == 32, rng);
			break;
		}
		case 8:	// floats in the short header, integers in the long one
			b = make(bits, channels, 8000, frames, bits != 32, rng);
			if (c & 16) {
				// with sizes that add up
				uint32_t size = frames * channels * bits / 8 + (bits == 32 ? 50 : 36);
				for (int k = 0; k < 4; ++k)
					b[4 + k] = (unsigned char)(size >> (8 * k));
			}
			break;
		case 9:	// longer or shorter than promised
			if (c & 1)
				b.resize(b.size() + rng.in(1, 30));
			else
				b.resize(b.size() - rng.in(0, std::min(b.size(), (size_t)20)));
			break;
		case 10: {	// one of the names wrong
			static const int P[] = { 0, 8, 12, 36, 38, 50 };
			int p = P[rng.in(0, 5)] + (int)rng.in(0, 3);
			if (p < (int)b.size())
				b[p] ^= 0x20;
			break;
		}
		case 11: {	// other encodings, all the rest consistent
			static const int W[] = { 8, 16, 24, 32, 64, 8, 16, 32, 0, 40 }, F[] = { 0, 1, 2, 3, 6, 7, 0x55, 0xfffe, 1, 3 };
			int w = W[rng.in(0, 9)];
			b = make(w, channels, 8000, frames, rng.one_in(2), rng, F[rng.in(0, 9)]);
			break;
		}
		case 12:	// sizes off by a little
			for (int i = (int)rng.in(1, 2); i > 0; --i) {
				static const int P[] = { 4, 16, 20, 22, 28, 32, 34, 36, 40, 42, 46, 54 };
				int p = P[rng.in(0, 11)];
				if (p < (int)b.size())
					b[p] += rng.one_in(2) ? 1 : -1;
			}
			break;
		case 13: {	// no channels at all or less, all the rest consistent
			int ch = c & 16 ? 0 : -(int)rng.in(1, 3);
			b = make(bits, ch, c & 32 ? 0 : -8000, 0, bits == 32, rng);
			uint32_t size = (uint32_t)rng.in(1, 40);
			for (int k = 0; k < 4; ++k) {
				b[4 + k] = (unsigned char)((size + (bits == 32 ? 50 : 36)) >> (8 * k));
				b[(bits == 32 ? 54 : 40) + k] = (unsigned char)(size >> (8 * k));
			}
			b.resize(b.size() + size);
			break;
		}
		case 14: {	// many more frames claimed than there are
			uint32_t count = (uint32_t)(rng.next() >> rng.in(33, 60));
			if (c & 16) {
				uint32_t size = std::min(count, 0x7fffff00u) & -32;
				for (int k = 0; k < 4; ++k) {
					b[4 + k] = (unsigned char)((size + (bits == 32 ? 50 : 36)) >> (8 * k));
					b[(bits == 32 ? 54 : 40) + k] = (unsigned char)(size >> (8 * k));
				}
			}
			for (int k = 0; k < 4 && bits == 32; ++k)
				b[46 + k] = (unsigned char)(count >> (8 * k));
			break;
		}
		case 15: {	// another chunk somewhere, its length right, none, huge or leading back
			static const char *N[] = { "LIST", "fact", "fmt ", "data", "junk" };
			static const uint32_t L[] = { 0, 4, 0xfffffff8, 0xfffffff0, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffffd4 };
			static const int P[] = { 12, 36, 38, 50, 44 };
			Bytes chunk;
			uint32_t len = c & 1 ? (uint32_t)rng.in(0, 9) : L[rng.in(0, 7)];
			put(chunk, N[rng.in(0, 4)]);
			put(chunk, len, 4);
			for (uint32_t i = 0; i < len && i < 9; ++i)
				chunk.push_back((unsigned char)rng.next());
			size_t p = std::min((size_t)P[rng.in(0, 4)], b.size());
			b.insert(b.begin() + p, chunk.begin(), chunk.end());
			if (rng.one_in(2)) {
				uint32_t size = (uint32_t)b.size() - 8;
				for (int k = 0; k < 4; ++k)
					b[4 + k] = (unsigned char)(size >> (8 * k));
			}
			break;
		}
		default:	// cut within the header
			b.resize(rng.in(0, std::min(b.size(), (size_t)58)));
		}
		Hash hash;
		for (auto v : b)
			hash << (int)v;
		label("ReadWAV<%s> hostile kind=%d bytes=%d case %d", name<T>(), kind, (int)b.size(), c);
		tick(hash.h, true);
		save(file, b);
		look<T>(file, b, rng);
	}
}

void workload()
{
	Rng rng(36);
	all<float>(rng);
	all<double>(rng);
	// a directory
	run(true, "ReadWAV of a directory");
	DSP::ReadWAV<float> dir(scratch);
	OK("hostile.directory", !dir.good());
}
