// C37: Netpbm files written are well formed and read back as they were
#include "file.hh"
#include "netpbm.hh"

using namespace mon;

static LD linear(LD v, int maxval)
{
	return v <= 0.04045L * maxval ? v / (12.92L * maxval) : std::pow((v / maxval + 0.055L) / 1.055L, 2.4L);
}

static LD encoded(LD v)
{
	v = std::min(std::max(v, (LD)0), (LD)1);
	return v <= 0.04045L / 12.92L ? v * 12.92L : 1.055L * std::pow(v, 1 / 2.4L) - 0.055L;
}

// magic, three numbers, one white space
static size_t header(const Bytes &b, int num[4])
{
	size_t at = 1;
	if (b.size() < 2 || b[0] != 'P')
		return 0;
	for (int i = 0; i < 4; ++i) {
		while (i && at < b.size() && (b[at] == ' ' || b[at] == '\n' || b[at] == '\t'))
			++at;
		num[i] = -1;
		for (; at < b.size() && b[at] >= '0' && b[at] <= '9'; ++at)
			num[i] = 10 * std::max(num[i], 0) + b[at] - '0';
		if (at >= b.size() || (b[at] != ' ' && b[at] != '\n' && b[at] != '\t'))
			return 0;
	}
	return at + 1;
}

template <typename T>
static void all(Rng &rng)
{
	const LD u = eps<T>();
	std::string name_ = path("a.pnm");
	for (int c = 0; c < cases(250, 6000); ++c) {
		bool mono = c & 1;
		int width = (int)std::abs(rng.loguni(1, 40)), height = (int)std::abs(rng.loguni(1, 30)), maxval = c % 3 ? 255 : (int)rng.in(1, 255);
		if (c % 83 == 82) {
			// dimensions of many digits
			width = (int)std::abs(rng.loguni(100, 30000));
			height = (int)rng.in(1, 30000 / width + 1);
			if (rng.one_in(2))
				std::swap(width, height);
		}
		int num = width * height, comps = mono ? 1 : 3;
		run(true, "PNM<%s> %s %dx%d maxval=%d case %d", name<T>(), mono ? "mono" : "color", width, height, maxval, c);
		std::vector<T> want;
		{
			Box<DSP::WritePNM<T>> pel((int)rng.in(0, 255), name_.c_str(), width, height, mono, maxval);
			OK("pnm.write.good", pel->good());
			EQ("pnm.write.size", pel->width(), width);
			EQ("pnm.write.size", pel->height(), height);
			EQ("pnm.write.mono", pel->mono(), mono);
			int done = 0;
			while (done < num) {
				int n = (int)rng.in(1, num - done), stride = rng.one_in(3) ? comps + (int)rng.in(0, 3) : -1, s = stride < 0 ? comps : stride;
				Buf<T> buf((n - 1) * s + comps);
				for (int i = 0; i < buf.size(); ++i)
					buf[i] = T(777);
				for (int i = 0; i < n; ++i) {
					for (int k = 0; k < comps; ++k) {
						T v = T(rng.u01());
						switch (rng.in(0, 9)) {
						case 0: v = 0; break;
						case 1: v = 1; break;
						case 2: v = T(rng.uni(-2, 0)); break;
						case 3: v = T(rng.uni(1, 3)); break;
						case 4: v = T(rng.uni(0, 0.01)); break;
						case 6: v = T(rng.loguni(1, 1e30)); break;
						case 7: v = T(rng.loguni(1e-30, 1e-3)); break;
						case 5: v = T(linear((LD)rng.in(0, maxval), maxval)); break;
						}
						buf[i * s + k] = v;
						want.push_back(v);
					}
				}
				if (stride < 0)
					pel->write(buf.data(), n);
				else
					pel->write(buf.data(), n, stride);
				done += n;
			}
			OK("pnm.write.good", pel->good());
		}
		Bytes b = load(name_);
		int field[4];
		size_t at = header(b, field);
		OK("pnm.header", at > 0);
		if (!at)
			continue;
		EQ("pnm.magic", field[0], mono ? 5 : 6);
		EQ("pnm.width", field[1], width);
		EQ("pnm.height", field[2], height);
		EQ("pnm.maxval", field[3], maxval);
		EQ("pnm.bytes", (long long)(b.size() - at), num * comps);
		if (b.size() - at != (size_t)(num * comps))
			continue;
		for (int i = 0; i < num * comps; ++i)
			NEAR("pnm.code", b[at + i], maxval * encoded(want[i]), 0.5L + 8 * u * maxval, i, maxval);
		Box<DSP::ReadPNM<T>> pel((int)rng.in(0, 255), name_.c_str());
		OK("pnm.read.good", pel->good());
		EQ("pnm.read.width", pel->width(), width);
		EQ("pnm.read.height", pel->height(), height);
		EQ("pnm.read.mono", pel->mono(), mono);
		int done = 0;
		while (done < num) {
			int n = (int)rng.in(1, num - done), stride = rng.one_in(3) ? comps + (int)rng.in(0, 3) : -1, s = stride < 0 ? comps : stride;
			Buf<T> buf((n - 1) * s + comps);
			for (int i = 0; i < buf.size(); ++i)
				buf[i] = T(777);
			if (stride < 0)
				pel->read(buf.data(), n);
			else
				pel->read(buf.data(), n, stride);
			for (int i = 0; i < n; ++i) {
				for (int k = 0; k < s && i * s + k < buf.size(); ++k) {
					if (k < comps) {
						LD v = linear(b[at + (done + i) * comps + k], maxval);
						NEAR("pnm.value", buf[i * s + k], v, 16 * u * v, done + i, k);
					} else {
						OK("pnm.gap", buf[i * s + k] == T(777), done + i, k);
					}
				}
			}
			done += n;
			OK("pnm.read.good", pel->good(), done, num);
		}
		Buf<T> more(comps);
		pel->read(more.data(), 1);
		OK("pnm.read.end", !pel->good());
		event("files");
		event("components", num * comps);
	}
	// whatever code, whatever depth: unchanged by reading and writing
	for (int maxval = 1; maxval <= 255; maxval += thorough ? 1 : maxval % 16 == 15 || maxval < 16 ? 1 : 7) {
		run(true, "PNM<%s> all codes maxval=%d", name<T>(), maxval);
		std::string first = path("b.pgm"), second = path("c.pgm");
		Bytes b;
		char head[64];
		snprintf(head, sizeof(head), "P5 %d 1 %d\n", maxval + 1, maxval);
		put(b, head);
		for (int i = 0; i <= maxval; ++i)
			b.push_back((unsigned char)i);
		save(first, b);
		Buf<T> buf(maxval + 1);
		{
			// through the interfaces, closed by their destructors
			DSP::ReadPEL<T> *in = new DSP::ReadPNM<T>(first.c_str());
			OK("pnm.read.good", in->good());
			in->read(buf.data(), maxval + 1);
			delete in;
			DSP::WritePEL<T> *out = new DSP::WritePNM<T>(second.c_str(), maxval + 1, 1, true, maxval);
			out->write(buf.data(), maxval + 1);
			delete out;
		}
		NEAR("pnm.black", buf[0], 0, 0, maxval);
		NEAR("pnm.white", buf[maxval], 1, 4 * u, maxval);
		for (int i = 1; i <= maxval; ++i)
			OK("pnm.monotone", buf[i] > buf[i - 1], i, maxval);
		Bytes d = load(second);
		int field[4];
		size_t at = header(d, field);
		OK("pnm.header", at && d.size() == at + maxval + 1);
		for (int i = 0; i <= maxval && at + i < d.size(); ++i)
			EQ("pnm.round-trip", d[at + i], i, i, maxval);
		event("codes", maxval + 1);
	}
	// color through the interfaces, the same pixel over and over, and into the same place
	for (int c = 0; c < 8; ++c) {
		bool mono = c & 1;
		int comps = mono ? 1 : 3, num = (int)rng.in(2, 9);
		run(true, "PNM<%s> %s interfaces", name<T>(), mono ? "mono" : "color");
		std::string file = path("e.pnm");
		Buf<T> buf(num * comps), back(num * comps), last(comps);
		for (int i = 0; i < num * comps; ++i)
			buf[i] = T(linear((LD)rng.in(0, 255), 255));
		DSP::WritePEL<T> *out = new DSP::WritePNM<T>(file.c_str(), num, 2, mono);
		OK("pnm.write.good", out->good());
		EQ("pnm.write.size", out->width(), num);
		EQ("pnm.write.size", out->height(), 2);
		EQ("pnm.write.mono", out->mono(), mono);
		out->write(buf.data(), num);
		out->write(buf.data(), num, 0);
		delete out;
		DSP::ReadPEL<T> *in = new DSP::ReadPNM<T>(file.c_str());
		OK("pnm.read.good", in->good());
		EQ("pnm.read.width", in->width(), num);
		EQ("pnm.read.height", in->height(), 2);
		EQ("pnm.read.mono", in->mono(), mono);
		in->read(back.data(), num);
		in->read(last.data(), num, 0);
		delete in;
		for (int i = 0; i < num * comps; ++i)
			NEAR("pnm.interface", back[i], buf[i], 32 * u * buf[i], i);
		for (int k = 0; k < comps; ++k)
			NEAR("pnm.same-pixel", last[k], buf[k], 32 * u * buf[k], k);
		event("files");
	}
	// default depth and color
	{
		run(true, "PNM<%s> defaults", name<T>());
		std::string file = path("d.ppm");
		T pel[3] = { 1, 0, 1 };
		{
			DSP::WritePNM<T> out(file.c_str(), 1, 1);
			EQ("pnm.write.mono", out.mono(), 0);
			out.write(pel, 1);
		}
		Bytes b = load(file);
		int field[4];
		size_t at = header(b, field);
		OK("pnm.default", at && field[0] == 6 && field[3] == 255 && b.size() == at + 3 && b[at] == 255 && b[at + 1] == 0 && b[at + 2] == 255);
	}
	std::string none = path("none/a.ppm");
	run(true, "PNM<%s> missing", name<T>());
	DSP::WritePNM<T> w(none.c_str(), 1, 1);
	OK("pnm.nowhere", !w.good());
	DSP::ReadPNM<T> r(none.c_str());
	OK("pnm.missing", !r.good());
}

// writes and reads of every length
static void lengths(bool mono, int upto, Rng &rng)
{
	std::string name_ = path("f.pnm");
	int comps = mono ? 1 : 3, num = upto * (upto + 1) / 2;
	run(true, "PNM lengths up to %d %s", upto, mono ? "mono" : "color");
	std::vector<int> want;
	{
		DSP::WritePNM<float> out(name_.c_str(), upto + 1, upto / 2, mono);
		for (int n = 0; n <= upto; ++n) {
			Buf<float> buf(n * comps);
			for (int i = 0; i < n * comps; ++i) {
				want.push_back((int)rng.in(0, 255));
				buf[i] = float(linear((LD)want.back(), 255));
			}
			out.write(buf.data(), n);
		}
		OK("pnm.write.good", out.good());
	}
	Bytes b = load(name_);
	int field[4];
	size_t at = header(b, field);
	OK("pnm.header", at > 0);
	EQ("pnm.bytes", (long long)(b.size() - at), (long long)num * comps);
	for (size_t i = 0; i < want.size() && at + i < b.size(); ++i)
		EQ("pnm.length", b[at + i], want[i], (long)i);
	for (int how = 0; how < 2; ++how) {
		DSP::ReadPNM<float> in(name_.c_str());
		int done = 0;
		for (int m = 0; m <= upto; ++m) {
			int n = how ? upto - m : m;
			Buf<float> buf(n * comps);
			in.read(buf.data(), n);
			for (int i = 0; i < n * comps; ++i) {
				LD v = linear(want[done * comps + i], 255);
				NEAR("pnm.length", buf[i], v, 16 * eps<float>() * v, done, n);
			}
			done += n;
			OK("pnm.read.good", in.good(), n);
		}
	}
	event("files");
}

void workload()
{
	Rng rng(37);
	// even: rows of one pixel more
	int upto = tiny ? 20 : thorough ? 1100 : 300;
	lengths(true, upto, rng);
	lengths(false, upto, rng);
	all<float>(rng);
	all<double>(rng);
}
