#include "mon.hh"
#include <cstdarg>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <map>
#include <mutex>
#include <string>
#include <unordered_set>

namespace mon {

uint64_t seed = 1;
int thorough = 0;
int tiny = 0;
int quiet = 0;
const char *scratch = ".";

static std::mutex lock;
static Site *sites;
static char cur[1024] = "(start)";
static uint64_t evaluations, nontrivial_n;
static std::unordered_set<uint64_t> *seen, *seen_nt;
static std::map<std::string, uint64_t> *events;
static std::vector<std::string> *samples;
struct Viol { std::string key, detail, cas; };
static std::vector<Viol> *viols;
static std::map<std::string, int> *per_key;
static const char *outfile;
// counts every report to the monitors
static volatile uint64_t progress;

uint64_t mix(uint64_t x)
{
	x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
	x ^= x >> 27; x *= 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}

double Rng::loguni(double a, double b)
{
	double v = std::exp(uni(std::log(a), std::log(b)));
	return next() & 1 ? v : -v;
}

Site::Site(const char *key) : key(key), n(0), worst(0)
{
	std::lock_guard<std::mutex> g(lock);
	link = sites;
	sites = this;
}

void label(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(cur, sizeof(cur), fmt, ap);
	va_end(ap);
}

static void sample()
{
	// the first few and then ever rarer ones
	if (evaluations <= 2 || (samples->size() < 12 && (evaluations & (evaluations - 1)) == 0 && evaluations > 8))
		samples->push_back(cur);
}

void tick(uint64_t hash, bool nontrivial)
{
	++evaluations;
	++progress;
	if (seen->size() < 4000000)
		seen->insert(hash);
	if (nontrivial) {
		++nontrivial_n;
		if (seen_nt->size() < 4000000)
			seen_nt->insert(hash);
	}
	sample();
}

void run(bool nontrivial, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(cur, sizeof(cur), fmt, ap);
	va_end(ap);
	uint64_t h = 0xcbf29ce484222325ull;
	for (const char *p = cur; *p; ++p)
		h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
	tick(h, nontrivial);
}

void event(const char *name, uint64_t n)
{
	(*events)[name] += n;
}

static void finish(int code);

static void violation(Site &s, const char *fmt, ...)
{
	char buf[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	int &k = (*per_key)[s.key];
	if (++k <= 3)
		viols->push_back(Viol{s.key, buf, cur});
	// enough seen
	if (k >= 50 && !quiet)
		finish(1);
}

bool finite(LD v)
{
	return std::isfinite(v);
}

void near(Site &s, LD got, LD want, LD tol, long i, long j)
{
	++s.n;
	++progress;
	LD err = std::fabs(got - want);
	if (tol > 0 && err / tol > s.worst)
		s.worst = (double)(err / tol);
	if (!(err <= tol))
		violation(s, "got %.12Lg want %.12Lg err %.3Lg tol %.3Lg at (%ld,%ld)", got, want, err, tol, i, j);
}

void eq(Site &s, long long got, long long want, long i, long j)
{
	++s.n;
	++progress;
	if (got != want)
		violation(s, "got %lld want %lld at (%ld,%ld)", got, want, i, j);
}

void ok(Site &s, bool cond, long i, long j)
{
	++s.n;
	++progress;
	if (!cond)
		violation(s, "condition false at (%ld,%ld)", i, j);
}

void ge(Site &s, LD got, LD bound, long i, long j)
{
	++s.n;
	++progress;
	if (!(got >= bound))
		violation(s, "got %.12Lg, must be at least %.12Lg at (%ld,%ld)", got, bound, i, j);
}

void le(Site &s, LD got, LD bound, long i, long j)
{
	++s.n;
	++progress;
	if (bound > 0 && got / bound > s.worst)
		s.worst = (double)(got / bound);
	if (!(got <= bound))
		violation(s, "got %.12Lg, must be at most %.12Lg at (%ld,%ld)", got, bound, i, j);
}

bool failed()
{
	return !viols->empty();
}

void inconclusive(const char *why)
{
	fprintf(stderr, "INCONCLUSIVE: %s [%s]\n", why, cur);
	if (viols && !viols->empty())
		finish(1);
	_exit(3);
}

__attribute__((noinline, no_sanitize("address"))) void scribble(int pattern)
{
	volatile unsigned char room[16384];
	for (size_t i = 0; i < sizeof(room); ++i)
		room[i] = (unsigned char)pattern;
}

LD pi() { return 3.141592653589793238462643383279502884L; }

LD sinq(LD n, LD N)
{
	LD m = std::fmod(n, N);
	if (m < 0)
		m += N;
	LD sign = 1;
	if (m > N / 2) {
		m = N - m;
		sign = -1;
	}
	if (m > N / 4)
		m = N / 2 - m;
	return sign * (m > N / 8 ? std::cos(2 * pi() * ((N / 4 - m) / N)) : std::sin(2 * pi() * (m / N)));
}

LD cosq(LD n, LD N)
{
	return sinq(n + N / 4, N);
}

static void jstr(FILE *f, const std::string &s)
{
	fputc('"', f);
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

static void finish(int code)
{
	FILE *f = fopen(outfile, "w");
	if (!f)
		_exit(4);
	fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\n\"monitors\":{",
		(unsigned long long)evaluations, (unsigned long long)seen->size(),
		(unsigned long long)nontrivial_n, (unsigned long long)seen_nt->size());
	std::map<std::string, std::pair<uint64_t, double>> agg;
	for (Site *s = sites; s; s = s->link) {
		auto &a = agg[s->key];
		a.first += s->n;
		a.second = std::max(a.second, std::min(s->worst, 1e30));
	}
	const char *sep = "";
	for (auto &a : agg) {
		fputs(sep, f); sep = ",\n";
		jstr(f, a.first);
		fprintf(f, ":{\"observations\":%llu,\"worst\":%.4g}", (unsigned long long)a.second.first, a.second.second);
	}
	fputs("},\n\"events\":{", f);
	sep = "";
	for (auto &e : *events) {
		fputs(sep, f); sep = ",";
		jstr(f, e.first);
		fprintf(f, ":%llu", (unsigned long long)e.second);
	}
	fputs("},\n\"samples\":[", f);
	sep = "";
	for (auto &s : *samples) {
		fputs(sep, f); sep = ",";
		jstr(f, s);
	}
	fputs("],\n\"violations\":[", f);
	sep = "";
	for (auto &v : *viols) {
		fputs(sep, f); sep = ",";
		fputs("{\"key\":", f); jstr(f, v.key);
		fputs(",\"detail\":", f); jstr(f, v.detail);
		fputs(",\"case\":", f); jstr(f, v.cas);
		fputs("}", f);
	}
	fputs("]}\n", f);
	fclose(f);
	_exit(code);
}

// one second of processor time passed: a minute without any report is a hang
static void on_alarm(int)
{
	static uint64_t last;
	static int count;
	if (progress != last) {
		last = progress;
		count = 0;
	} else if (++count >= 60) {
		char buf[1200];
		int n = snprintf(buf, sizeof(buf), "\nSTALLED: for a minute of processor time during: %s\n", cur);
		if (write(2, buf, n) < 0) {}
		_exit(5);
	}
}

static void on_signal(int sig)
{
	char buf[1200];
	int n = snprintf(buf, sizeof(buf), "\nDIED: signal %d during: %s\n", sig, cur);
	if (write(2, buf, n) < 0) {}
	signal(sig, SIG_DFL);
	raise(sig);
}

}

int main(int argc, char **argv)
{
	using namespace mon;
	// argv: seed tier quiet scratch outfile
	if (argc != 6)
		return 4;
	seed = strtoull(argv[1], 0, 10);
	thorough = !strcmp(argv[2], "thorough");
	tiny = !strncmp(argv[2], "tiny", 4) ? atoi(argv[2] + 4) : 0;
	quiet = atoi(argv[3]);
	scratch = argv[4];
	outfile = argv[5];
	seen = new std::unordered_set<uint64_t>;
	seen_nt = new std::unordered_set<uint64_t>;
	events = new std::map<std::string, uint64_t>;
	samples = new std::vector<std::string>;
	viols = new std::vector<Viol>;
	per_key = new std::map<std::string, int>;
	signal(SIGABRT, on_signal);
#if !defined(__SANITIZE_ADDRESS__) && !defined(VP_MSAN) && !defined(__SANITIZE_THREAD__)
	signal(SIGSEGV, on_signal);
	signal(SIGBUS, on_signal);
	signal(SIGFPE, on_signal);
	signal(SIGILL, on_signal);
#endif
#ifndef __SANITIZE_THREAD__
	struct sigaction alarm;
	memset(&alarm, 0, sizeof(alarm));
	alarm.sa_handler = on_alarm;
	alarm.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &alarm, 0);
	struct itimerval second = { { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_PROF, &second, 0);
#endif
	workload();
	uint64_t obs = 0;
	for (Site *s = sites; s; s = s->link)
		obs += s->n;
	if (!evaluations || !obs)
		inconclusive("nothing observed");
	finish(viols->empty() ? 0 : 1);
}
