// C42: sound and images through pipes, and recordings that are not finished
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "file.hh"
#include "netpbm.hh"
#include "wav.hh"

using namespace mon;

// far below what a pipe holds, so nothing ever has to wait
static const int MOST = 30000;

// the pipe to look after: who waits for more than was given, all of it taken, gets the end
static volatile int watched = -1, idle = 0;

static void look_after(int)
{
	int left = 0;
	if (watched < 0)
		return;
	if (ioctl(watched, FIONREAD, &left) || left)
		idle = 0;
	else if (++idle > 2) {
		close(watched);
		watched = -1;
		return;
	}
	alarm(10);
}

// a pipe with a name, both ends held open
class Pipe
{
	std::string name_;
	int fd;
	bool watching = false;
public:
	Pipe(const char *base) : name_(path(base))
	{
		unlink(name_.c_str());
		if (mkfifo(name_.c_str(), 0600))
			inconclusive("can not make a pipe in the scratch directory");
		fd = open(name_.c_str(), O_RDWR | O_NONBLOCK);
		if (fd < 0)
			inconclusive("can not open the pipe");
	}
	~Pipe()
	{
		finish();
		unlink(name_.c_str());
	}
	const char *name()
	{
		return name_.c_str();
	}
	// what came out so far
	Bytes take()
	{
		Bytes b;
		unsigned char tmp[4096];
		for (;;) {
			ssize_t n = ::read(fd, tmp, sizeof(tmp));
			if (n < 0 && errno == EINTR)
				continue;
			if (n <= 0)
				break;
			b.insert(b.end(), tmp, tmp + n);
		}
		return b;
	}
	// from here on it is read from
	void watch()
	{
		struct sigaction action = {};
		action.sa_handler = look_after;
		action.sa_flags = SA_RESTART;
		sigaction(SIGALRM, &action, 0);
		idle = 0;
		watching = true;
		watched = fd;
		alarm(10);
	}
	void give(const Bytes &b, size_t from, size_t to)
	{
		if (fd == watched)
			idle = 0;
		else if (watching)
			return;
		while (from < to) {
			ssize_t n = ::write(fd, b.data() + from, to - from);
			if (n < 0 && errno == EINTR)
				continue;
			if (n <= 0)
				inconclusive("the pipe is full");
			from += n;
		}
	}
	void finish()
	{
		// unless done already
		bool ours = fd >= 0 && (!watching || watched == fd);
		alarm(0);
		watched = -1;
		if (ours)
			close(fd);
		fd = -1;
	}
};

static LD decode(const Bytes &b, size_t at, int bits)
{
	uint32_t raw = le(b, at, bits / 8);
	if (bits == 32) {
		float f;
		memcpy(&f, &raw, 4);
		return f;
	}
	return bits == 8 ? ((int)raw - 128) / 127.L : (int16_t)raw / 32767.L;
}

template <typename T>
static LD step(int bits)
{
	return (bits == 8 ? 1 / 127.L : bits == 16 ? 1 / 32767.L : 0) / 2 + 2 * eps<float>();
}

template <typename T>
static void header(const Bytes &b, int bits, int channels, int rate)
{
	int head = bits == 32 ? 58 : 44, bytes = bits / 8;
	if ((int)b.size() < head) {
		OK("pipe.header", false, (long)b.size());
		return;
	}
	OK("pipe.header", !memcmp(&b[0], "RIFF", 4) && !memcmp(&b[8], "WAVEfmt ", 8) && !memcmp(&b[head - 8], "data", 4));
	EQ("pipe.header.size", le(b, 16, 4), bits == 32 ? 18 : 16);
	EQ("pipe.header.format", le(b, 20, 2), bits == 32 ? 3 : 1);
	EQ("pipe.header.channels", le(b, 22, 2), channels);
	EQ("pipe.header.rate", le(b, 24, 4), rate);
	EQ("pipe.header.bytes", le(b, 28, 4), (long long)rate * channels * bytes);
	EQ("pipe.header.align", le(b, 32, 2), channels * bytes);
	EQ("pipe.header.bits", le(b, 34, 2), bits);
	if (bits == 32) {
		EQ("pipe.header.extension", le(b, 36, 2), 0);
		OK("pipe.header.fact", !memcmp(&b[38], "fact", 4) && le(b, 42, 4) == 4);
	}
	// how long it will be is not known yet
	LE("pipe.header.unknown", (int32_t)le(b, head - 4, 4), 0);
}

template <typename T>
static void sound(Rng &rng)
{
	for (int c = 0; c < cases(120, 2500); ++c) {
		static const int B[] = { 8, 16, 32 };
		int bits = B[c % 3], bytes = bits / 8, channels = 1 + (int)rng.in(0, 5), rate = (int)std::abs(rng.loguni(1, 192000));
		int head = bits == 32 ? 58 : 44, most = MOST / (channels * bytes);
		int frames = c % 10 == 0 ? most : c % 10 == 1 ? 0 : (int)std::abs(rng.loguni(1, 300));
		run(frames > 0, "WAV<%s> through a pipe bits=%d channels=%d rate=%d frames=%d case %d", name<T>(), bits, channels, rate, frames, c);
		std::vector<T> want(frames * channels);
		for (auto &v : want)
			v = T(rng.wave());
		Bytes b;
		{
			Pipe pipe("wav.pipe");
			{
				Box<DSP::WriteWAV<T>> out((int)rng.in(0, 255), pipe.name(), rate, bits, channels);
				for (int done = 0, n; done < frames; done += n) {
					n = (int)rng.in(1, frames - done);
					if (rng.one_in(8)) {
						out->silence(n);
						for (int i = done * channels; i < (done + n) * channels; ++i)
							want[i] = 0;
					} else {
						out->write(want.data() + done * channels, n);
					}
					OK("pipe.write.good", out->good());
				}
			}
			b = pipe.take();
		}
		header<T>(b, bits, channels, rate);
		// the samples, and nothing but the samples
		EQ("pipe.size", (long long)b.size(), head + frames * channels * bytes);
		if ((int)b.size() != head + frames * channels * bytes)
			continue;
		for (size_t i = 0; i < want.size(); ++i)
			NEAR("pipe.sample", decode(b, head + i * bytes, bits), want[i], step<T>(bits), (long)i);
		// back from a pipe, each part as soon as it is there
		Pipe pipe("wav.pipe");
		pipe.give(b, 0, head);
		pipe.watch();
		Box<DSP::ReadWAV<T>> in((int)rng.in(0, 255), pipe.name());
		OK("pipe.read.good", in->good());
		EQ("pipe.read.rate", in->rate(), rate);
		EQ("pipe.read.channels", in->channels(), channels);
		EQ("pipe.read.bits", in->bits(), bits);
		EQ("pipe.read.frames", in->frames(), -1);
		if (!in->good() || in->channels() != channels || in->bits() != bits)
			continue;
		for (int done = 0, n; done < frames; done += n) {
			n = (int)rng.in(1, frames - done);
			// nothing asked for, nothing to wait for
			if (rng.one_in(4)) {
				Buf<T> none(0);
				in->read(none.data(), 0);
				OK("pipe.read.nothing", in->good(), done);
			}
			size_t at = head + (size_t)done * channels * bytes;
			pipe.give(b, at, at + (size_t)n * channels * bytes);
			Buf<T> buf(n * channels);
			in->read(buf.data(), n);
			OK("pipe.read.good", in->good(), done);
			for (int i = 0; i < n * channels; ++i)
				NEAR("pipe.value", buf[i], decode(b, at + (size_t)i * bytes, bits), 2 * eps<T>(), done, i);
		}
		pipe.finish();
		Buf<T> more(channels);
		in->read(more.data(), 1);
		OK("pipe.read.end", !in->good());
		event("sound through pipes");
		event("samples", want.size());
	}
	// a recording someone looks into before it is finished
	for (int c = 0; c < cases(12, 120); ++c) {
		int bits = c % 3 == 0 ? 8 : c % 3 == 1 ? 16 : 32, bytes = bits / 8, channels = 1 + c % 2, rate = (int)rng.in(1, 96000);
		int head = bits == 32 ? 58 : 44, frames = 40000 / (channels * bytes);
		run(true, "WAV<%s> while recording bits=%d channels=%d rate=%d case %d", name<T>(), bits, channels, rate, c);
		std::string file = path("r.wav");
		std::vector<T> want(frames * channels);
		for (auto &v : want)
			v = T(rng.wave());
		DSP::WriteWAV<T> out(file.c_str(), rate, bits, channels);
		for (int part = 0; part < 3; ++part) {
			out.write(want.data(), frames);
			Bytes b = load(file);
			int there = ((int)b.size() - head) / (channels * bytes);
			if (there < 1)
				continue;
			header<T>(b, bits, channels, rate);
			LE("recording.there", there, (part + 1) * frames);
			DSP::ReadWAV<T> in(file.c_str());
			OK("recording.good", in.good());
			EQ("recording.rate", in.rate(), rate);
			EQ("recording.channels", in.channels(), channels);
			EQ("recording.bits", in.bits(), bits);
			EQ("recording.frames", in.frames(), -1);
			if (!in.good() || in.channels() != channels)
				continue;
			Buf<T> buf(there * channels);
			in.read(buf.data(), there);
			OK("recording.good", in.good());
			for (int i = 0; i < there * channels; ++i)
				NEAR("recording.value", buf[i], want[i % want.size()], step<T>(bits), i, part);
			event("looks into a recording");
		}
	}
}

template <typename T>
static void images(Rng &rng)
{
	for (int c = 0; c < cases(60, 1200); ++c) {
		bool mono = c & 1;
		int ch = mono ? 1 : 3, width = (int)std::abs(rng.loguni(1, 100)), height = (int)std::abs(rng.loguni(1, 100));
		int maxval = c % 3 ? 255 : (int)rng.in(1, 255), num = width * height;
		run(true, "PNM<%s> through a pipe %dx%d mono=%d maxval=%d case %d", name<T>(), width, height, mono, maxval, c);
		std::vector<int> code(num * ch);
		std::vector<T> want(num * ch);
		for (int i = 0; i < num * ch; ++i) {
			code[i] = (int)rng.in(0, maxval);
			LD v = (LD)code[i] / maxval;
			want[i] = T(v <= 0.04045L ? v / 12.92L : std::pow((v + 0.055L) / 1.055L, 2.4L));
		}
		Bytes b;
		{
			Pipe pipe("pnm.pipe");
			{
				Box<DSP::WritePNM<T>> out((int)rng.in(0, 255), pipe.name(), width, height, mono, maxval);
				for (int done = 0, n; done < num; done += n) {
					n = (int)rng.in(1, num - done);
					out->write(want.data() + done * ch, n);
					OK("pipe.image.good", out->good());
				}
			}
			b = pipe.take();
		}
		char head[64];
		int size = snprintf(head, sizeof(head), "P%d %d %d %d\n", mono ? 5 : 6, width, height, maxval);
		EQ("pipe.image.size", (long long)b.size(), size + num * ch);
		if ((int)b.size() != size + num * ch)
			continue;
		for (int i = 0; i < num * ch; ++i)
			EQ("pipe.image.code", b[size + i], code[i], i);
		Pipe pipe("pnm.pipe");
		pipe.give(b, 0, size);
		pipe.watch();
		Box<DSP::ReadPNM<T>> in((int)rng.in(0, 255), pipe.name());
		OK("pipe.image.good", in->good());
		EQ("pipe.image.width", in->width(), width);
		EQ("pipe.image.height", in->height(), height);
		EQ("pipe.image.mono", in->mono(), mono);
		if (!in->good() || in->mono() != mono)
			continue;
		for (int done = 0, n; done < num; done += n) {
			n = (int)rng.in(1, num - done);
			if (rng.one_in(4)) {
				Buf<T> none(0);
				in->read(none.data(), 0);
				OK("pipe.image.nothing", in->good(), done);
			}
			size_t at = size + (size_t)done * ch;
			pipe.give(b, at, at + (size_t)n * ch);
			Buf<T> buf(n * ch);
			in->read(buf.data(), n);
			OK("pipe.image.good", in->good(), done);
			for (int i = 0; i < n * ch; ++i)
				NEAR("pipe.image.value", buf[i], want[done * ch + i], 20 * eps<T>(), done, i);
		}
		pipe.finish();
		Buf<T> more(ch);
		in->read(more.data(), 1);
		OK("pipe.image.end", !in->good());
		event("images through pipes");
	}
}

void workload()
{
	Rng rng(42);
	sound<float>(rng);
	sound<double>(rng);
	images<float>(rng);
	images<double>(rng);
}
