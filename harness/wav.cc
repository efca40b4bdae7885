// C35: WAV files written are well formed and read back as they were
#include <unistd.h>
#include "file.hh"
#include "wav.hh"

using namespace mon;

template <typename T>
static void all(Rng &rng)
{
	const LD u = eps<T>();
	std::string name_ = path("a.wav");
	const char *file = name_.c_str();
	for (int c = 0; c < cases(250, 5000); ++c) {
		static const int B[] = { 8, 16, 32, 8, 16, 32, 24 };
		int asked = B[c % 7], bits = asked == 24 ? 32 : asked, bytes = bits / 8;
		int channels = c < 30 ? 1 + c % 3 : (int)std::abs(rng.loguni(1, 20)), rate = c % 3 ? 8000 : (int)std::abs(rng.loguni(1, 2e9));
		int frames = c % 9 == 0 ? (int)rng.in(0, 3) : (int)std::abs(rng.loguni(1, 400));
		if (c % 17 == 16) {
			channels = (int)std::abs(rng.loguni(20, 8000));
			frames = (int)rng.in(1, 3);
		}
		rate = std::min(rate, 0x7FFFFFFF / (4 * channels));
		run(frames > 0, "WAV<%s> bits=%d channels=%d rate=%d frames=%d case %d", name<T>(), asked, channels, rate, frames, c);
		std::vector<T> want;	// samples as given, in order
		std::vector<char> mute;
		{
			Box<DSP::WriteWAV<T>> pcm((int)rng.in(0, 255), file, rate, asked, channels);
			OK("wav.write.good", pcm->good());
			EQ("wav.write.rate", pcm->rate(), rate);
			EQ("wav.write.channels", pcm->channels(), channels);
			int done = 0;
			while (done < frames) {
				int n = (int)rng.in(1, frames - done), stride = rng.one_in(3) ? channels + (int)rng.in(0, 3) : -1;
				if (rng.one_in(6)) {
					pcm->silence(n);
					for (int i = 0; i < n * channels; ++i) {
						want.push_back(0);
						mute.push_back(1);
					}
				} else {
					int s = stride < 0 ? channels : stride;
					Buf<T> buf((n - 1) * s + channels);
					for (int i = 0; i < buf.size(); ++i)
						buf[i] = T(777);
					for (int i = 0; i < n; ++i) {
						for (int k = 0; k < channels; ++k) {
							T v = T(rng.wave());
							switch (rng.in(0, 11)) {
							case 0: v = 1; break;
							case 1: v = -1; break;
							case 2: v = 0; break;
							case 3: v = T(rng.loguni(1, 100)); break;
							case 4: v = T(rng.loguni(1e-30, 1e-2)); break;
							case 5: v = T(rng.in(-128, 127)) / T(127); break;
							case 6: v = T(rng.in(-32768, 32767)) / T(32767); break;
							case 7: v = T(rng.loguni(1, 1e30)); break;
							}
							buf[i * s + k] = v;
							want.push_back(v);
							mute.push_back(0);
						}
					}
					if (stride < 0)
						pcm->write(buf.data(), n);
					else
						pcm->write(buf.data(), n, stride);
				}
				done += n;
				// nothing at all, in between
				switch (rng.in(0, 7)) {
				case 0: pcm->silence(0); break;
				case 1: pcm->write(want.data(), 0); break;
				}
			}
			OK("wav.write.good", pcm->good());
		}
		// what is on the medium, byte by byte
		Bytes b = load(name_);
		int head = bits == 32 ? 58 : 44, size = frames * channels * bytes;
		EQ("wav.size", (long long)b.size(), head + size);
		if ((int)b.size() != head + size)
			continue;
		OK("wav.riff", !memcmp(&b[0], "RIFF", 4) && !memcmp(&b[8], "WAVEfmt ", 8) && !memcmp(&b[head - 8], "data", 4));
		EQ("wav.riff.size", le(b, 4, 4), head + size - 8);
		EQ("wav.fmt.size", le(b, 16, 4), bits == 32 ? 18 : 16);
		EQ("wav.fmt.format", le(b, 20, 2), bits == 32 ? 3 : 1);
		EQ("wav.fmt.channels", le(b, 22, 2), channels);
		EQ("wav.fmt.rate", le(b, 24, 4), rate);
		EQ("wav.fmt.bytes", le(b, 28, 4), (long long)rate * channels * bytes);
		EQ("wav.fmt.align", le(b, 32, 2), channels * bytes);
		EQ("wav.fmt.bits", le(b, 34, 2), bits);
		if (bits == 32) {
			EQ("wav.fmt.extension", le(b, 36, 2), 0);
			OK("wav.fact", !memcmp(&b[38], "fact", 4));
			EQ("wav.fact.size", le(b, 42, 4), 4);
			EQ("wav.fact.frames", le(b, 46, 4), frames);
		}
		EQ("wav.data.size", le(b, head - 4, 4), size);
		std::vector<LD> stored(want.size());
		for (size_t i = 0; i < want.size(); ++i) {
			uint32_t raw = le(b, head + i * bytes, bytes);
			LD v = want[i], off = bits == 8 ? 128 : 0, top = bits == 8 ? 127 : 32767;
			if (bits == 32) {
				float f;
				memcpy(&f, &raw, 4);
				OK("wav.float", f == (float)want[i], (long)i);
				stored[i] = f;
			} else {
				int code = bits == 8 ? (int)raw : (int)(int16_t)raw;
				LD ideal = off + top * v, lo = bits == 8 ? 0 : -32768, hi = bits == 8 ? 255 : 32767;
				ideal = std::min(std::max(ideal, lo), hi);
				// rounded to the nearest, clipped at the ends
				NEAR("wav.code", code, ideal, 0.5L + 2 * u * (top + off), (long)i);
				if (mute[i])
					EQ("wav.silence", code, (int)off, (long)i);
				stored[i] = (code - off) / top;
			}
		}
		// and back
		Box<DSP::ReadWAV<T>> pcm((int)rng.in(0, 255), file);
		OK("wav.read.good", pcm->good());
		EQ("wav.read.rate", pcm->rate(), rate);
		EQ("wav.read.channels", pcm->channels(), channels);
		EQ("wav.read.bits", pcm->bits(), bits);
		if (frames)
			EQ("wav.read.frames", pcm->frames(), frames);
		int done = 0;
		while (done < frames) {
			int n = (int)rng.in(1, frames - done), stride = rng.one_in(3) ? channels + (int)rng.in(0, 3) : -1, s = stride < 0 ? channels : stride;
			if (rng.one_in(5)) {
				pcm->skip(n);
			} else {
				Buf<T> buf((n - 1) * s + channels);
				for (int i = 0; i < buf.size(); ++i)
					buf[i] = T(777);
				if (stride < 0)
					pcm->read(buf.data(), n);
				else
					pcm->read(buf.data(), n, stride);
				for (int i = 0; i < n; ++i) {
					for (int k = 0; k < s && i * s + k < buf.size(); ++k) {
						if (k < channels)
							NEAR("wav.value", buf[i * s + k], stored[(done + i) * channels + k], bits == 32 ? 0 : u * (1 + std::abs(stored[(done + i) * channels + k])), done + i, k);
						else
							OK("wav.gap", buf[i * s + k] == T(777), done + i, k);
					}
				}
			}
			done += n;
			switch (rng.in(0, 7)) {
			case 0: pcm->skip(0); break;
			case 1: pcm->read(want.data(), 0); break;
			}
			OK("wav.read.good", pcm->good(), done, frames);
		}
		// the end is noticed
		Buf<T> more(channels);
		pcm->read(more.data(), 1);
		OK("wav.read.end", !pcm->good());
		event("files");
		event("samples", want.size());
	}
	// the same frame over and over, and into the same place
	for (int c = 0; c < 6; ++c) {
		int bits = c % 3 == 0 ? 8 : c % 3 == 1 ? 16 : 32, channels = 1 + c / 2, num = (int)rng.in(2, 9);
		run(true, "WAV<%s> bits=%d channels=%d stride 0", name<T>(), bits, channels);
		Buf<T> one(channels), back(num * channels), last(channels);
		for (int k = 0; k < channels; ++k)
			one[k] = T(rng.in(-127, 127)) / T(127);
		{
			DSP::WriteWAV<T> out(file, 8000, bits, channels);
			out.write(one.data(), num, 0);
		}
		DSP::ReadWAV<T> in(file), again(file);
		EQ("wav.read.frames", in.frames(), num);
		in.read(back.data(), num);
		again.read(last.data(), num, 0);
		LD step = bits == 8 ? 1 / 127.L : bits == 16 ? 1 / 32767.L : 0;
		for (int i = 0; i < num * channels; ++i)
			NEAR("wav.same-frame", back[i], one[i % channels], 0.5L * step + 6 * eps<float>(), i);
		for (int k = 0; k < channels; ++k)
			NEAR("wav.same-place", last[k], back[(num - 1) * channels + k], 0, k);
	}
	// through the interfaces, closed by their destructors
	for (int c = 0; c < 12; ++c) {
		int bits = c % 3 == 0 ? 8 : c % 3 == 1 ? 16 : 32, channels = 1 + c / 3, num = (int)rng.in(2, 20), rate = (int)rng.in(1, 96000);
		run(true, "WAV<%s> bits=%d channels=%d interfaces", name<T>(), bits, channels);
		Buf<T> buf(num * channels), back(num * channels);
		for (int i = 0; i < num * channels; ++i)
			buf[i] = T(rng.in(-127, 127)) / T(127);
		DSP::WritePCM<T> *out = new DSP::WriteWAV<T>(file, rate, bits, channels);
		OK("wav.write.good", out->good());
		EQ("wav.write.rate", out->rate(), rate);
		EQ("wav.write.channels", out->channels(), channels);
		out->silence(3);
		out->write(buf.data(), num);
		delete out;
		DSP::ReadPCM<T> *in = new DSP::ReadWAV<T>(file);
		OK("wav.read.good", in->good());
		EQ("wav.read.rate", in->rate(), rate);
		EQ("wav.read.channels", in->channels(), channels);
		EQ("wav.read.frames", in->frames(), num + 3);
		in->skip(3);
		in->read(back.data(), num);
		delete in;
		LD step = bits == 8 ? 1 / 127.L : bits == 16 ? 1 / 32767.L : 0;
		for (int i = 0; i < num * channels; ++i)
			NEAR("wav.interface", back[i], buf[i], 0.5L * step + 6 * eps<float>(), i);
		event("files");
	}
	// nowhere to write, nothing to read
	for (int c = 0; c < 2; ++c) {
		run(true, "WAV<%s> missing %s", name<T>(), c ? "directory" : "file");
		std::string none = path(c ? "none/a.wav" : "none.wav");
		DSP::ReadWAV<T> r(none.c_str());
		OK("wav.missing", !r.good());
		if (c) {
			DSP::WriteWAV<T> w(none.c_str(), 8000, 16, 1);
			OK("wav.nowhere", !w.good());
		}
	}
}

// sizes that need all the bytes of their fields
template <typename T>
static void large(int bits, int channels, int frames, Rng &rng)
{
	std::string name_ = path("c.wav");
	int bytes = bits / 8, head = bits == 32 ? 58 : 44, rate = (int)rng.in(1 << 24, (1 << 30) / (channels * bytes)), size = frames * channels * bytes;
	run(true, "WAV<%s> large bits=%d channels=%d rate=%d frames=%d", name<T>(), bits, channels, rate, frames);
	Buf<T> one(channels), back(channels);
	for (int k = 0; k < channels; ++k)
		one[k] = T(rng.in(-127, 127)) / T(127);
	{
		DSP::WriteWAV<T> out(name_.c_str(), rate, bits, channels);
		out.silence(frames - 1);
		out.write(one.data(), 1);
		OK("wav.write.good", out.good());
	}
	Bytes b = load(name_);
	EQ("wav.size", (long long)b.size(), head + (long long)size);
	EQ("wav.riff.size", le(b, 4, 4), head + size - 8);
	EQ("wav.fmt.rate", le(b, 24, 4), rate);
	EQ("wav.fmt.bytes", le(b, 28, 4), (long long)rate * channels * bytes);
	if (bits == 32)
		EQ("wav.fact.frames", le(b, 46, 4), frames);
	EQ("wav.data.size", le(b, head - 4, 4), size);
	DSP::ReadWAV<T> in(name_.c_str());
	OK("wav.read.good", in.good());
	EQ("wav.read.rate", in.rate(), rate);
	EQ("wav.read.frames", in.frames(), frames);
	in.skip(frames - 1);
	in.read(back.data(), 1);
	OK("wav.read.good", in.good());
	LD step = bits == 8 ? 1 / 127.L : bits == 16 ? 1 / 32767.L : 0;
	for (int k = 0; k < channels; ++k)
		NEAR("wav.last", back[k], one[k], 0.5L * step + 6 * eps<float>(), k);
	event("files");
	unlink(name_.c_str());
}

// silences, writes, skips and reads of every length
template <typename T>
static void lengths(int bits, int channels, int upto, Rng &rng)
{
	std::string name_ = path("d.wav");
	int bytes = bits / 8, head = bits == 32 ? 58 : 44;
	run(true, "WAV<%s> lengths up to %d bits=%d channels=%d", name<T>(), upto, bits, channels);
	std::vector<T> want;
	{
		DSP::WriteWAV<T> out(name_.c_str(), 8000, bits, channels);
		for (int n = 0; n <= upto; ++n) {
			Buf<T> buf(n * channels);
			for (int i = 0; i < n * channels; ++i)
				buf[i] = T(rng.in(-127, 127)) / T(127);
			out.silence(n);
			want.resize(want.size() + n * channels, T(0));
			out.write(buf.data(), n);
			for (int i = 0; i < n * channels; ++i)
				want.push_back(buf[i]);
		}
		OK("wav.write.good", out.good());
	}
	EQ("wav.size", (long long)load(name_).size(), head + (long long)want.size() * bytes);
	LD step = bits == 8 ? 1 / 127.L : bits == 16 ? 1 / 32767.L : 0;
	for (int how = 0; how < 3; ++how) {
		DSP::ReadWAV<T> in(name_.c_str());
		EQ("wav.read.frames", (long long)in.frames(), (long long)want.size() / channels);
		size_t at = 0;
		for (int m = 0; m <= 2 * upto + 1; ++m) {
			// forth or back in length
			int n = (how == 2 ? 2 * upto + 1 - m : m) / 2;
			if (how == 1 && m % 2 == 0) {
				in.skip(n);
			} else {
				Buf<T> back(n * channels);
				in.read(back.data(), n);
				for (int i = 0; i < n * channels; ++i)
					NEAR("wav.length", back[i], want[at + i], 0.5L * step + 6 * eps<float>(), (long)at + i, n);
			}
			at += n * channels;
			OK("wav.read.good", in.good(), n);
		}
	}
	event("files");
	unlink(name_.c_str());
}

// all codes of the integer formats
template <typename T>
static void codes(int bits)
{
	std::string name_ = path("b.wav");
	run(true, "WAV<%s> all codes bits=%d", name<T>(), bits);
	int lo = bits == 8 ? 0 : -32768, hi = bits == 8 ? 255 : 32767, off = bits == 8 ? 128 : 0, top = bits == 8 ? 127 : 32767;
	std::vector<T> v;
	for (int i = lo; i <= hi; ++i)
		v.push_back(T(i - off) / T(top));
	{
		// through the interface, closed by its destructor
		DSP::WritePCM<T> *pcm = new DSP::WriteWAV<T>(name_.c_str(), 8000, bits, 1);
		pcm->write(v.data(), (int)v.size());
		OK("wav.write.good", pcm->good());
		delete pcm;
	}
	DSP::ReadPCM<T> *pcm = new DSP::ReadWAV<T>(name_.c_str());
	Buf<T> got((int)v.size());
	EQ("wav.read.frames", pcm->frames(), (int)v.size());
	pcm->read(got.data(), (int)v.size());
	OK("wav.read.good", pcm->good());
	delete pcm;
	for (int i = 0; i < (int)v.size(); ++i)
		NEAR("wav.round-trip", got[i], (LD)(lo + i - off) / top, 2 * eps<T>(), lo + i, bits);
	event("codes", v.size());
}

void workload()
{
	Rng rng(35);
	all<float>(rng);
	all<double>(rng);
	codes<float>(8);
	codes<double>(8);
	codes<float>(16);
	codes<double>(16);
	for (int bits: { 8, 16, 32 })
		for (int channels = 1; channels <= 3; ++channels)
			lengths<float>(bits, channels, cases(300, 1100), rng);
	if (!tiny) {
		large<float>(8, 1, (1 << 24) + 12345, rng);
		large<double>(16, 2, (1 << 22) + 4321, rng);
		large<float>(32, 1, (1 << 22) + 321, rng);
	}
	if (thorough)
		large<float>(32, 1, (1 << 24) + 54321, rng);
}
