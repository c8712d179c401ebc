// Instantiates the public templates so that their bodies are analysed too.
#include <Variant/Variant.h>
#include <Variant/Path.h>
#include <Variant/Emitter.h>
#include <Variant/Parser.h>
#include <string>
#include <vector>
#include <map>

using namespace libvariant;

void instantiate(Variant &v, const Variant &c, VariantRef r) {
	std::vector<int> vi; std::vector<std::string> vs; std::vector<Variant> vv;
	std::map<std::string, int> mi; std::map<std::string, std::string> ms; std::map<std::string, Variant> mv;
	v = vi; v = vs; v = vv; v = mi; v = ms; v = mv;
	r = vi; r = vs; r = vv; r = mi; r = ms; r = mv;
	Variant a(vi), b(vs), d(vv), e(mi), f(ms), g(mv);
	int i = 0; double x = 0; std::string s; bool t = false; unsigned u = 0;
	c.GetInto(i, "k"); c.GetInto(s, "k"); c.GetInto(x, "k", 1.0); c.GetInto(t, "k"); c.GetInto(u, "k");
	c.GetPathInto(i, "k"); c.GetPathInto(s, "k", s);
	i = c.AsNumber<int>(); i = c.As<int>(); s = c.As<std::string>(); x = c.As<double>();
	t = c.As<bool>(); u = c.As<unsigned>();
}
