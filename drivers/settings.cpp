// Entry points into carl's quantities and durations for extraction (no logic of its own).
#include <carl-settings/settings_utils.h>
#include <carl-settings/settings_utils.cpp>
namespace vp {
using namespace carl::settings;
using B = binary_quantity; using M = metric_quantity; using D = duration;
std::size_t b_n(const B& q) { return q.n(); }
std::size_t b_kibi(const B& q) { return q.kibi(); }
std::size_t b_mebi(const B& q) { return q.mebi(); }
std::size_t b_gibi(const B& q) { return q.gibi(); }
std::size_t b_tebi(const B& q) { return q.tebi(); }
std::size_t b_pebi(const B& q) { return q.pebi(); }
std::size_t b_exbi(const B& q) { return q.exbi(); }
std::size_t m_n(const M& q) { return q.n(); }
std::size_t m_kilo(const M& q) { return q.kilo(); }
std::size_t m_mega(const M& q) { return q.mega(); }
std::size_t m_giga(const M& q) { return q.giga(); }
std::size_t m_tera(const M& q) { return q.tera(); }
std::size_t m_peta(const M& q) { return q.peta(); }
std::size_t m_exa(const M& q) { return q.exa(); }
bool b_eq(B a, B b) { return a == b; }
bool b_less(B a, B b) { return a < b; }
bool m_eq(M a, M b) { return a == b; }
bool m_less(M a, M b) { return a < b; }
void b_print(std::ostream& os, const B& q) { os << q; }
void m_print(std::ostream& os, const M& q) { os << q; }
void d_print(std::ostream& os, const D& q) { os << q; }
void b_read(boost::any& v, const std::vector<std::string>& s) { validate(v, s, (B*)nullptr, 0); }
void m_read(boost::any& v, const std::vector<std::string>& s) { validate(v, s, (M*)nullptr, 0); }
void d_read(boost::any& v, const std::vector<std::string>& s) { validate(v, s, (D*)nullptr, 0); }
}
