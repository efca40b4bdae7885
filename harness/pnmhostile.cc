// C38: foreign and damaged Netpbm files
#include "file.hh"
#include "netpbm.hh"

using namespace mon;

// three valued: 1 must be accepted, 0 must be refused, -1 either
struct Header
{
	int accept, mono, width, height, maxval;
	size_t data;
};

static bool white(int c) { return c == ' ' || c == '\n' || c == '\t'; }

static Header parse(const Bytes &b)
{
	Header h = { 0, 0, 0, 0, 0, 0 };
	size_t n = b.size();
	if (n < 3 || b[0] != 'P' || (b[1] != '5' && b[1] != '6'))
		return h;
	h.mono = b[1] == '5';
	if (!white(b[2])) {
		// other white space or a comment right there: legal elsewhere
		h.accept = b[2] == '\r' || b[2] == '#' || b[2] == '\f' || b[2] == '\v' ? -1 : 0;
		return h;
	}
	size_t at = 2;
	int64_t num[3];
	for (int i = 0; i < 3; ++i) {
		bool first = true;
		while (at < n && (white(b[at]) || b[at] == '#')) {
			if (b[at] == '#') {
				// only directly at the start of the line after a number
				if (!first || b[at - 1] != '\n') {
					h.accept = -1;
					return h;
				}
				while (at < n && b[at] != '\n')
					++at;
				if (at >= n)
					return h;
				// now behind the end of that line
				++at;
				if (at < n && b[at] != '#')
					first = false;
			} else {
				bool line = b[at] == '\n';
				++at;
				if (!line || (at < n && b[at] != '#'))
					first = false;
			}
		}
		if (at >= n)
			return h;
		if (b[at] < '0' || b[at] > '9') {
			h.accept = b[at] == '\r' || b[at] == '\f' || b[at] == '\v' ? -1 : 0;
			return h;
		}
		num[i] = 0;
		for (; at < n && b[at] >= '0' && b[at] <= '9'; ++at)
			num[i] = std::min((int64_t)1 << 40, 10 * num[i] + b[at] - '0');
		if (at >= n)
			return h;
	}
	if (!white(b[at])) {
		h.accept = b[at] == '\r' || b[at] == '\f' || b[at] == '\v' ? -1 : 0;
		return h;
	}
	for (int i = 0; i < 3; ++i) {
		if (num[i] > 2147483647)
			return h;
		// close to the limit
		if (num[i] > 2147483000) {
			h.accept = -1;
			return h;
		}
	}
	if (num[2] == 0)
		return h;
	h.width = (int)num[0];
	h.height = (int)num[1];
	h.maxval = (int)num[2];
	h.data = at + 1;
	// empty pictures and deeper ones are up to the reader
	h.accept = num[2] > 255 || !num[0] || !num[1] ? -1 : 1;
	return h;
}

static LD linear(LD v, int maxval)
{
	return v <= 0.04045L * maxval ? v / (12.92L * maxval) : std::pow((v / maxval + 0.055L) / 1.055L, 2.4L);
}

template <typename T>
static void look(const std::string &file, const Bytes &b, Rng &rng)
{
	Header h = parse(b);
	Box<DSP::ReadPNM<T>> one(0, file.c_str()), two((int)rng.in(1, 255), file.c_str());
	if (h.accept >= 0)
		EQ("hostile.accepted", one->good(), h.accept);
	EQ("hostile.memory", two->good(), one->good());
	EQ("hostile.memory", two->width(), one->width());
	EQ("hostile.memory", two->height(), one->height());
	EQ("hostile.memory", two->mono(), one->mono());
	event(h.accept > 0 ? "accepted" : h.accept ? "undecided" : "rejected");
	if (h.accept > 0) {
		EQ("hostile.mono", one->mono(), h.mono);
		EQ("hostile.width", one->width(), h.width);
		EQ("hostile.height", one->height(), h.height);
	}
	int comps = one->mono() ? 1 : 3, n = (int)rng.in(1, 20);
	Buf<T> buf(n * comps);
	one->read(buf.data(), n);
	if (h.accept == 0)
		OK("hostile.still-bad", !one->good());
	if (h.accept == 1) {
		EQ("hostile.truncated", one->good(), h.data + n * comps <= b.size());
		for (int i = 0; i < n * comps && h.data + i < b.size(); ++i) {
			if (b[h.data + i] > h.maxval)
				continue;
			LD v = linear(b[h.data + i], h.maxval);
			NEAR("hostile.value", buf[i], v, 16 * eps<T>() * v, i, h.maxval);
		}
	}
}

template <typename T>
static void all(Rng &rng)
{
	std::string file = path("h.pnm");
	auto blank = [&](Bytes &b) {
		// long ones now and then
		if (rng.one_in(40)) {
			int len = (int)std::abs(rng.loguni(10, 3000)), how = (int)rng.in(0, 2);
			if (how)
				put(b, how == 1 ? "\n#" : "\n");
			for (int i = 0; i < len; ++i)
				b.push_back((unsigned char)(how == 1 ? rng.in(32, 126) : " \t"[rng.in(0, 1)]));
			if (how)
				put(b, "\n");
			return;
		}
		static const char *W[] = { " ", "\n", "\t", "  ", "\n\n", " \n", "\n ", "\n# note\n", "\n#\n", "\n# one 1 2\n# two\n", " \t ", "\n#P6 9 9 9\n" };
		put(b, W[rng.in(0, 11)]);
	};
	for (int c = 0; c < cases(2500, 60000); ++c) {
		int maxval = rng.one_in(3) ? 255 : (int)rng.in(1, 255), width = (int)rng.in(1, 12), height = (int)rng.in(1, 12), mono = (int)rng.in(0, 1);
		Bytes b;
		char num[32];
		put(b, mono ? "P5" : "P6");
		int kind = c % 10;
		long long v[3] = { width, height, maxval };
		if (kind == 4) {
			static const long long V[] = { 0, 1, 255, 256, 65535, 65536, 214748363, 214748364, 2147483640, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 99999999999ll, 10000000000000ll };
			v[rng.in(0, 2)] = V[rng.in(0, 14)];
		}
		for (int i = 0; i < 3; ++i) {
			if (kind == 5 && rng.one_in(3))
				b.push_back((unsigned char)(rng.one_in(2) ? rng.next() : "\r#x-+.\f\v"[rng.in(0, 7)]));
			else if (kind == 0)
				put(b, " ");
			else
				blank(b);
			if (kind == 6 && rng.one_in(4))
				continue;
			if (kind == 7)
				for (int k = (int)std::abs(rng.loguni(1, 300)); k > 0; --k)
					put(b, "0");
			snprintf(num, sizeof(num), "%lld", v[i]);
			put(b, num);
		}
		b.push_back("\n \t\n"[rng.in(0, 3)]);
		int pels = width * height * (mono ? 1 : 3);
		for (int i = 0; i < pels; ++i)
			b.push_back((unsigned char)(kind == 3 ? rng.next() : rng.in(0, maxval)));
		switch (kind) {
		case 1:
			b.resize(rng.in(0, b.size()));
			break;
		case 2:
			b.resize(rng.in(0, std::min(b.size(), (size_t)24)));
			break;
		case 3:
			b[rng.in(0, std::min(b.size(), (size_t)16) - 1)] = (unsigned char)rng.next();
			break;
		case 8:
			b.resize(rng.in(0, 60));
			for (auto &x : b)
				x = (unsigned char)(c & 16 ? rng.next() : "P56 \n\t#0123459"[rng.in(0, 13)]);
			break;
		case 9:
			b[1] = (unsigned char)"0123478956abX \n"[rng.in(0, 14)];
			break;
		}
		Hash hash;
		for (auto x : b)
			hash << (int)x;
		label("ReadPNM<%s> hostile kind=%d bytes=%d case %d", name<T>(), kind, (int)b.size(), c);
		tick(hash.h, true);
		save(file, b);
		look<T>(file, b, rng);
	}
}

void workload()
{
	Rng rng(38);
	all<float>(rng);
	all<double>(rng);
	run(true, "ReadPNM of a directory");
	DSP::ReadPNM<float> dir(scratch);
	OK("hostile.directory", !dir.good());
}
