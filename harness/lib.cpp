// Line-driven access to classes of libvvhd: one command per line on stdin, one answer line on stdout.
#include "TTime.hpp"
#include "TEval.hpp"
#include "TBody.hpp"
#include "XField.hpp"
#include "XIsoline.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <omp.h>
using std::string;

static string flat(string s) { for (char& c : s) if (c == '\n') c = ' '; return s; }
static double num(std::istream& in) { string s; in >> s; return strtod(s.c_str(), nullptr); }
static string unhex(const string& s) {
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static string slurp(const string& p) {
    std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}

int main()
{
    std::map<int, std::unique_ptr<TEval>> ev;
    std::unique_ptr<TBody> body;
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string c; in >> c;
        try {
            if (c == "tadd" || c == "tdiv") {
                long long a, b, x, y; in >> a >> b >> x >> y;
                TTime p(a, b), q(x, y);
                if (c == "tadd") { TTime r = TTime::add(p, q); printf("%d %u\n", r.value, r.timescale); }
                else printf("%d\n", (int)p.divisibleBy(q));
            } else if (c == "tdec") {
                TTime r = TTime::makeWithSecondsDecimal(num(in)); printf("%d %u\n", r.value, r.timescale);
            } else if (c == "tdbl") {
                long long a, b; in >> a >> b; TTime p(a, b); printf("%a %s\n", double(p), string(p).c_str());
            } else if (c == "body") {
                body.reset(new TBody());
                int n; in >> n;
                for (int i = 0; i < n; i++) { double x = num(in), y = num(in); body->alist.emplace_back(x, y); }
                body->doUpdateSegments(); body->doFillProperties();
                printf("ok\n");
            } else if (c == "holder") {
                body->holder.r.x = num(in); body->holder.r.y = num(in); body->holder.o = num(in);
                body->dpos.r.x = num(in); body->dpos.r.y = num(in); body->dpos.o = num(in);
                printf("ok\n");
            } else if (c == "move") {
                TVec3D h, b;
                h.r.x = num(in); h.r.y = num(in); h.o = num(in);
                b.r.x = num(in); b.r.y = num(in); b.o = num(in);
                body->move(h, b);
                printf("ok\n");
            } else if (c == "copy") {
                std::unique_ptr<TBody> t(new TBody(*body)); body.swap(t); printf("ok\n");
            } else if (c == "corners") {
                for (auto& a : body->alist) printf("%a %a ", a.corner.x, a.corner.y);
                printf("\n");
            } else if (c == "props") {
                TVec cm = body->get_cofm(), ax = body->get_axis();
                printf("%a %a %a %a %a %a %a %a\n", body->get_slen(), body->get_area(), cm.x, cm.y,
                    body->get_moi_cofm(), body->get_moi_axis(), ax.x, ax.y);
            } else if (c == "pts") {
                int n; in >> n;
                for (int i = 0; i < n; i++) {
                    double x = num(in), y = num(in);
                    TAtt* a = body->isPointInvalid(TVec(x, y));
                    printf("%ld ", a ? long(a - body->alist.data()) : -1L);
                }
                printf("\n");
            } else if (c == "enew") {
                int i; string h; in >> i >> h;
                ev[i].reset(new TEval(unhex(h)));
                printf("ok\n");
            } else if (c == "edef") {
                int i; in >> i; ev[i].reset(new TEval()); printf("ok\n");
            } else if (c == "eset") {
                int i; string h; in >> i >> h; *ev.at(i) = unhex(h); printf("ok\n");
            } else if (c == "ecopy") {
                int i, j; in >> i >> j; ev[i].reset(new TEval(*ev.at(j))); printf("ok\n");
            } else if (c == "eassign") {
                int i, j; in >> i >> j; *ev.at(i) = *ev.at(j); printf("ok\n");
            } else if (c == "edel") {
                int i; in >> i; ev.erase(i); printf("ok\n");
            } else if (c == "estr") {
                int i; in >> i; string s = *ev.at(i); printf("%zu ", s.size());
                for (unsigned char ch : s) printf("%02x", ch);
                printf("\n");
            } else if (c == "eval") {
                int i; in >> i; printf("%a\n", ev.at(i)->eval(num(in)));
            } else if (c == "emt") {
                // emt threads n (id t)*: all evaluations by several threads at once
                int th, n; in >> th >> n;
                std::vector<int> id(n); std::vector<double> t(n), r(n);
                std::vector<TEval*> e(n);
                for (int i = 0; i < n; i++) { in >> id[i]; t[i] = num(in); e[i] = ev.at(id[i]).get(); }
                #pragma omp parallel for num_threads(th) schedule(dynamic, 1)
                for (int i = 0; i < n; i++) r[i] = e[i]->eval(t[i]);
                for (int i = 0; i < n; i++) printf("%a ", r[i]);
                printf("\n");
            } else if (c == "field") {
                // field path out p*: statistics and the field written back
                string p, o; in >> p >> o;
                XField f(slurp(p));
                std::ofstream os(o, std::ios::binary); os << f; os.close();
                printf("%a %a", f.min(), f.max());
                string s;
                while (in >> s) printf(" %a", f.percentile(strtod(s.c_str(), nullptr)));
                printf("\n");
            } else if (c == "iso") {
                // iso path out min max step (xi yj gap)*
                struct Gapped: XField {
                    using XField::XField;
                    void gap(int x, int y, double g) { gaps.emplace_back(x, y, g); }
                };
                string p, o, s; in >> p >> o;
                double a = num(in), b = num(in), d = num(in);
                Gapped f(slurp(p));
                while (in >> s) { int x = atoi(s.c_str()), y; in >> y; f.gap(x, y, num(in)); }
                XIsoline x(f, a, b, d);
                std::ofstream os(o, std::ios::binary); os << x; os.close();
                printf("ok\n");
            } else printf("? %s\n", c.c_str());
        } catch (const std::exception& e) {
            printf("E %s\n", flat(e.what()).c_str());
        }
        fflush(stdout);
    }
    return 0;
}
