// Verification model of iostreams: in-memory buffers, an in-memory file system, integer/string formatting.
// cout/cerr/clog discard their output.
#pragma once
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <bits/postypes.h>
#include <map>
#include <memory>
#include <string>
#include <system_error>
#include <type_traits>
namespace vf {
// model file system for streams: path -> content. A failing open is an explicit harness decision.
struct StreamFS {
    std::map<std::string, std::shared_ptr<std::string>> files;
    bool fail_open = false;
    bool (*fail)(const std::string& path, bool open) = nullptr; // opening the file, or writing out what it was given, fails
};
StreamFS& stream_fs();
}
namespace std {
class ios_base {
public:
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef unsigned openmode;
    typedef int      seekdir;
    static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
                              showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384,
                              adjustfield = 176, basefield = 74, floatfield = 260;
    static constexpr iostate  goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr seekdir  beg = 0, cur = 1, end = 2;
    class failure : public system_error {
    public:
        explicit failure(const char* s) : system_error(error_code(1, generic_category()), s) {}
    };
    class Init {};
    fmtflags flags() const { return fl_; }
    fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
    void     unsetf(fmtflags m) { fl_ &= ~m; }
    streamsize width() const { return w_; }
    streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
    streamsize precision() const { return p_; }
    streamsize precision(streamsize p) { streamsize o = p_; p_ = p; return o; }
    static bool sync_with_stdio(bool b = true) { return b; }
protected:
    fmtflags   fl_ = dec | skipws;
    streamsize w_ = 0, p_ = 6;
};
template<class C, class T> class basic_streambuf {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
    streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); }
    int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
    int_type sgetc() { return underflow(); }
    int_type sbumpc() { C c; return xsgetn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
    int_type snextc() { return sbumpc() == T::eof() ? T::eof() : sgetc(); }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
    pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(off_type(p), ios_base::beg, m); }
    int pubsync() { return 0; }
    streamsize in_avail() { return showmanyc(); }
protected:
    virtual streamsize xsputn(const C*, streamsize) { return 0; }
    virtual streamsize xsgetn(C*, streamsize) { return 0; }
    virtual int_type underflow() { return T::eof(); }
    virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); }
    virtual streamsize showmanyc() { return 0; }
};
// byte string with independent read and write positions (one shared position for files)
template<class C, class T> class vf_membuf : public basic_streambuf<C, T> {
public:
    typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    std::shared_ptr<std::basic_string<C>> d_ = std::make_shared<std::basic_string<C>>();
    size_t g_ = 0, p_ = 0;
    bool one_pos_ = false, app_ = false;
    ios_base::openmode mode_ = ios_base::in | ios_base::out;
protected:
    streamsize xsputn(const C* s, streamsize n) override
    {
        if (!(mode_ & ios_base::out) || n <= 0) return 0;
        if (app_) p_ = d_->size();
        size_t k = static_cast<size_t>(n);
        if (p_ == d_->size()) d_->append(s, k);
        else {
            if (d_->size() < p_ + k) d_->resize(p_ + k);
            memcpy(&(*d_)[p_], s, k * sizeof(C));
        }
        p_ += k;
        if (one_pos_) g_ = p_;
        return n;
    }
    streamsize xsgetn(C* s, streamsize n) override
    {
        if (!(mode_ & ios_base::in) || n <= 0) return 0;
        size_t a = g_ < d_->size() ? d_->size() - g_ : 0, k = static_cast<size_t>(n);
        if (k > a) k = a;
        if (k) memcpy(s, d_->data() + g_, k * sizeof(C));
        g_ += k;
        if (one_pos_) p_ = g_;
        return static_cast<streamsize>(k);
    }
    int_type underflow() override { return (mode_ & ios_base::in) && g_ < d_->size() ? T::to_int_type((*d_)[g_]) : T::eof(); }
    streamsize showmanyc() override { return g_ < d_->size() ? static_cast<streamsize>(d_->size() - g_) : -1; }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override
    {
        off_type base = d == ios_base::beg ? 0 : d == ios_base::end ? static_cast<off_type>(d_->size()) : static_cast<off_type>((m & ios_base::in) ? g_ : p_);
        off_type r = base + o;
        if (r < 0) return pos_type(off_type(-1));
        if (m & ios_base::in) g_ = static_cast<size_t>(r);
        if (m & ios_base::out) p_ = static_cast<size_t>(r);
        if (one_pos_) g_ = p_ = static_cast<size_t>(r);
        return pos_type(r);
    }
};
inline _GLIBCXX_BEGIN_NAMESPACE_CXX11
template<class C, class T, class A> class basic_stringbuf : public vf_membuf<C, T> {
public:
    explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) { this->mode_ = m; }
    explicit basic_stringbuf(const std::basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out)
    {
        this->mode_ = m;
        *this->d_ = s;
        if (m & (ios_base::ate | ios_base::app)) this->p_ = s.size();
    }
    std::basic_string<C, T, A> str() const { return *this->d_; }
    void str(const std::basic_string<C, T, A>& s) { *this->d_ = s; this->g_ = this->p_ = 0; if (this->mode_ & (ios_base::ate | ios_base::app)) this->p_ = s.size(); }
};
_GLIBCXX_END_NAMESPACE_CXX11
template<class C, class T> class basic_filebuf : public vf_membuf<C, T> {
public:
    bool open_ = false;
    std::string path_;
    bool is_open() const { return open_; }
    basic_filebuf() { this->one_pos_ = true; }
    basic_filebuf* open(const std::string& p, ios_base::openmode m)
    {
        if (open_) return nullptr;
        vf::StreamFS& fs = vf::stream_fs();
        if (fs.fail_open || (fs.fail && fs.fail(p, true))) return nullptr;
        path_ = p;
        auto it = fs.files.find(p);
        if (it == fs.files.end()) {
            if (!(m & ios_base::out) || ((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app)))) return nullptr;
            it = fs.files.emplace(p, std::make_shared<std::string>()).first;
        } else if ((m & ios_base::trunc) || ((m & ios_base::out) && !(m & (ios_base::in | ios_base::app)))) it->second->clear();
        this->d_ = it->second;
        this->mode_ = m;
        if (m & ios_base::app) { this->app_ = true; this->mode_ |= ios_base::out; }
        this->g_ = this->p_ = (m & ios_base::ate) ? this->d_->size() : 0;
        open_ = true;
        return this;
    }
    basic_filebuf* close()
    {
        if (!open_) return nullptr;
        open_ = false;
        vf::StreamFS& fs = vf::stream_fs();
        bool failed = (this->mode_ & ios_base::out) && this->d_->size() && fs.fail && fs.fail(path_, false);
        if (failed) this->d_->clear();
        this->d_ = std::make_shared<std::basic_string<C>>();
        this->g_ = this->p_ = 0;
        this->mode_ = 0;
        return failed ? nullptr : this;
    }
};
template<class C, class T> class basic_ostream;
template<class C, class T> class basic_ios : public ios_base {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ios(basic_streambuf<C, T>* b) { init(b); }
    virtual ~basic_ios() {}
    iostate rdstate() const { return st_; }
    void clear(iostate s = goodbit)
    {
        st_ = sb_ ? s : (s | badbit);
        if (st_ & ex_) throw failure("basic_ios::clear");
    }
    void setstate(iostate s) { clear(st_ | s); }
    bool good() const { return st_ == 0; }
    bool eof() const { return (st_ & eofbit) != 0; }
    bool fail() const { return (st_ & (badbit | failbit)) != 0; }
    bool bad() const { return (st_ & badbit) != 0; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    iostate exceptions() const { return ex_; }
    void exceptions(iostate e) { ex_ = e; clear(st_); }
    basic_streambuf<C, T>* rdbuf() const { return sb_; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto* o = sb_; sb_ = b; clear(); return o; }
    basic_ostream<C, T>* tie() const { return nullptr; }
    basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return nullptr; }
    C fill() const { return fill_; }
    C fill(C c) { C o = fill_; fill_ = c; return o; }
    C widen(char c) const { return c; }
    basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; w_ = o.w_; p_ = o.p_; fill_ = o.fill_; return *this; }
protected:
    basic_ios() {}
    void init(basic_streambuf<C, T>* b) { sb_ = b; st_ = b ? goodbit : badbit; }
    basic_streambuf<C, T>* sb_ = nullptr;
    iostate st_ = badbit, ex_ = 0;
    C       fill_ = ' ';
};
template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    class sentry {
    public:
        explicit sentry(basic_ostream& o) : ok_(o.good()) {}
        explicit operator bool() const { return ok_; }
    private:
        bool ok_;
    };
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    basic_ostream& write(const C* s, streamsize n)
    {
        if (this->good() && n > 0 && this->sb_->sputn(s, n) != n) this->setstate(ios_base::badbit);
        return *this;
    }
    basic_ostream& put(C c) { return write(&c, 1); }
    basic_ostream& flush() { return *this; }
    pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->sb_->pubseekoff(0, ios_base::cur, ios_base::out); }
    basic_ostream& seekp(pos_type p) { if (!this->fail() && off_type(this->sb_->pubseekpos(p, ios_base::out)) == -1) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& seekp(off_type o, ios_base::seekdir d) { if (!this->fail() && off_type(this->sb_->pubseekoff(o, d, ios_base::out)) == -1) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& operator<<(bool b) { return num(b, false); }
    basic_ostream& operator<<(short v) { return snum(v, sizeof v); }
    basic_ostream& operator<<(unsigned short v) { return num(v, false); }
    basic_ostream& operator<<(int v) { return snum(v, sizeof v); }
    basic_ostream& operator<<(unsigned v) { return num(v, false); }
    basic_ostream& operator<<(long v) { return snum(v, sizeof v); }
    basic_ostream& operator<<(unsigned long v) { return num(v, false); }
    basic_ostream& operator<<(long long v) { return snum(v, sizeof v); }
    basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
    basic_ostream& operator<<(float) { return vf_str("<float>", 7); }
    basic_ostream& operator<<(double) { return vf_str("<float>", 7); }
    basic_ostream& operator<<(long double) { return vf_str("<float>", 7); }
    basic_ostream& operator<<(const void*) { return vf_str("<ptr>", 5); }
    basic_ostream& operator<<(nullptr_t) { return vf_str("nullptr", 7); }
    basic_ostream& operator<<(basic_streambuf<C, T>* b) { for (;;) { auto c = b->sbumpc(); if (c == T::eof()) break; put(T::to_char_type(c)); } return *this; }
    basic_ostream& vf_str(const C* s, size_t n)
    {
        if (!this->sb_) return *this;
        size_t w = static_cast<size_t>(this->width(0));
        bool left = (this->flags() & ios_base::adjustfield) == ios_base::left;
        if (!left) for (size_t i = n; i < w; i++) put(this->fill());
        write(s, static_cast<streamsize>(n));
        if (left) for (size_t i = n; i < w; i++) put(this->fill());
        return *this;
    }
protected:
    basic_ostream() {}
private:
    basic_ostream& snum(long long v, size_t sz)
    {
        if (!this->sb_) return *this;
        if (this->flags() & (ios_base::hex | ios_base::oct)) return num(sz == 8 ? static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v) & ((1ull << (8 * sz)) - 1), false);
        if (v < 0) return num(0 - static_cast<unsigned long long>(v), true);
        return num(static_cast<unsigned long long>(v), false);
    }
    basic_ostream& num(unsigned long long v, bool neg)
    {
        if (!this->sb_) return *this;
        C b[24];
        int n = 24;
        unsigned base = (this->flags() & ios_base::hex) ? 16 : (this->flags() & ios_base::oct) ? 8 : 10;
        bool up = (this->flags() & ios_base::uppercase) != 0;
        unsigned w = static_cast<unsigned>(this->width());
        if (base == 16 && !neg && w && w <= 16 && this->fill() == '0' && (this->flags() & ios_base::adjustfield) != ios_base::left) {
            // zero-padded hexadecimal: no branch on the value when it fits
            while (w < 16 && (v >> (4 * w))) w++;
            for (unsigned i = 0; i < w; i++) b[i] = static_cast<C>(vf_digit(static_cast<unsigned>(v >> (4 * (w - 1 - i))) & 15u, up));
            return vf_str(b, w);
        }
        do {
            unsigned d = static_cast<unsigned>(v % base);
            b[--n] = static_cast<C>(vf_digit(d, up));
            v /= base;
        } while (v);
        if (neg) b[--n] = '-';
        return vf_str(b + n, static_cast<size_t>(24 - n));
    }
    static unsigned vf_digit(unsigned d, bool up) { return d + '0' + (d > 9 ? (up ? 7u : 39u) : 0u); }
};
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { return o.vf_str(&c, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = static_cast<char>(c); return o.vf_str(&x, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = static_cast<char>(c); return o.vf_str(&x, 1); }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s) { return o.rdbuf() ? o.vf_str(s, T::length(s)) : o; }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << reinterpret_cast<const char*>(s); }
template<class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template<class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template<class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template<class C, class T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.vf_str(s, static_cast<size_t>(n)); }
template<class O, class V, class = typename enable_if<is_base_of<ios_base, typename remove_reference<O>::type>::value && !is_lvalue_reference<O>::value>::type>
O&& operator<<(O&& o, const V& v) { o << v; return std::move(o); }

template<class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    class sentry {
    public:
        explicit sentry(basic_istream& i, bool noskip = false) : ok_(i.good())
        {
            if (!ok_) { i.setstate(ios_base::failbit); return; }
            if (!noskip && (i.flags() & ios_base::skipws))
                for (;;) {
                    auto c = i.rdbuf()->sgetc();
                    if (c == T::eof()) { i.setstate(ios_base::eofbit | ios_base::failbit); ok_ = false; return; }
                    if (!(c == ' ' || (c >= 9 && c <= 13))) return;
                    i.rdbuf()->sbumpc();
                }
        }
        explicit operator bool() const { return ok_; }
    private:
        bool ok_;
    };
    explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
    streamsize gcount() const { return gc_; }
    basic_istream& read(C* s, streamsize n)
    {
        gc_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        gc_ = this->sb_->sgetn(s, n);
        if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit);
        return *this;
    }
    streamsize readsome(C* s, streamsize n)
    {
        gc_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return 0; }
        streamsize a = this->sb_->in_avail();
        if (a < 0) { this->setstate(ios_base::eofbit); return 0; }
        if (a > n) a = n;
        return gc_ = this->sb_->sgetn(s, a);
    }
    int_type peek()
    {
        gc_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); }
        int_type c = this->sb_->sgetc();
        if (c == T::eof()) this->setstate(ios_base::eofbit);
        return c;
    }
    int_type get()
    {
        gc_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); }
        int_type c = this->sb_->sbumpc();
        if (c == T::eof()) this->setstate(ios_base::eofbit | ios_base::failbit);
        else gc_ = 1;
        return c;
    }
    basic_istream& get(C& c) { int_type v = get(); if (v != T::eof()) c = T::to_char_type(v); return *this; }
    basic_istream& ignore(streamsize n = 1, int_type d = T::eof())
    {
        gc_ = 0;
        while (gc_ < n) {
            int_type c = this->sb_->sbumpc();
            if (c == T::eof()) { this->setstate(ios_base::eofbit); break; }
            gc_++;
            if (c == d) break;
        }
        return *this;
    }
    pos_type tellg() { return this->fail() ? pos_type(off_type(-1)) : this->sb_->pubseekoff(0, ios_base::cur, ios_base::in); }
    basic_istream& seekg(pos_type p)
    {
        this->clear(this->rdstate() & ~ios_base::eofbit);
        if (!this->fail() && off_type(this->sb_->pubseekpos(p, ios_base::in)) == -1) this->setstate(ios_base::failbit);
        return *this;
    }
    basic_istream& seekg(off_type o, ios_base::seekdir d)
    {
        this->clear(this->rdstate() & ~ios_base::eofbit);
        if (!this->fail() && off_type(this->sb_->pubseekoff(o, d, ios_base::in)) == -1) this->setstate(ios_base::failbit);
        return *this;
    }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_istream& operator>>(unsigned short& v) { return num(v); }
    basic_istream& operator>>(int& v) { return num(v); }
    basic_istream& operator>>(unsigned& v) { return num(v); }
    basic_istream& operator>>(long& v) { return num(v); }
    basic_istream& operator>>(unsigned long& v) { return num(v); }
    basic_istream& operator>>(long long& v) { return num(v); }
    basic_istream& operator>>(unsigned long long& v) { return num(v); }
protected:
    basic_istream() {}
    streamsize gc_ = 0;
private:
    template<class N> basic_istream& num(N& v)
    {
        sentry s(*this);
        if (!s) return *this;
        unsigned base = (this->flags() & ios_base::hex) ? 16 : 10;
        bool neg = false, any = false;
        unsigned long long r = 0;
        auto c = this->sb_->sgetc();
        if (c == '-' || c == '+') { neg = c == '-'; c = this->sb_->snextc(); }
        for (; c != T::eof(); c = this->sb_->snextc()) {
            unsigned d;
            if (c >= '0' && c <= '9') d = static_cast<unsigned>(c - '0');
            else if (base == 16 && c >= 'a' && c <= 'f') d = static_cast<unsigned>(c - 'a' + 10);
            else if (base == 16 && c >= 'A' && c <= 'F') d = static_cast<unsigned>(c - 'A' + 10);
            else break;
            r = r * base + d;
            any = true;
        }
        if (c == T::eof()) this->setstate(ios_base::eofbit);
        if (!any) { this->setstate(ios_base::failbit); v = 0; }
        else v = static_cast<N>(neg ? 0 - r : r);
        return *this;
    }
};
inline istream& operator>>(istream& i, string& s)
{
    istream::sentry se(i);
    s.clear();
    if (!se) return i;
    for (;;) {
        auto c = i.rdbuf()->sgetc();
        if (c == char_traits<char>::eof()) { i.setstate(ios_base::eofbit); break; }
        if (c == ' ' || (c >= 9 && c <= 13)) break;
        s.push_back(char_traits<char>::to_char_type(c));
        i.rdbuf()->sbumpc();
    }
    if (s.empty()) i.setstate(ios_base::failbit);
    return i;
}
template<class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c)
{
    typename basic_istream<C, T>::sentry se(i);
    if (se) i.get(c);
    return i;
}
inline istream& getline(istream& i, string& s, char d)
{
    istream::sentry se(i, true);
    s.clear();
    if (!se) return i;
    bool any = false;
    for (;;) {
        auto c = i.rdbuf()->sbumpc();
        if (c == char_traits<char>::eof()) { i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; }
        any = true;
        if (c == char_traits<char>::to_int_type(d)) break;
        s.push_back(char_traits<char>::to_char_type(c));
    }
    return i;
}
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
template<class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { return i; }
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); }
protected:
    basic_iostream() {}
};
inline _GLIBCXX_BEGIN_NAMESPACE_CXX11
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
    basic_stringbuf<C, T, A> b_;
public:
    explicit basic_ostringstream(ios_base::openmode m = ios_base::out) : b_(m | ios_base::out) { this->init(&b_); }
    explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::out) : b_(s, m | ios_base::out) { this->init(&b_); }
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
};
template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
    basic_stringbuf<C, T, A> b_;
public:
    explicit basic_istringstream(ios_base::openmode m = ios_base::in) : b_(m | ios_base::in) { this->init(&b_); }
    explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in) : b_(s, m | ios_base::in) { this->init(&b_); }
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
};
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
    basic_stringbuf<C, T, A> b_;
public:
    explicit basic_stringstream(ios_base::openmode m = ios_base::in | ios_base::out) : b_(m) { this->init(&b_); }
    explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : b_(s, m) { this->init(&b_); }
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
};
_GLIBCXX_END_NAMESPACE_CXX11
#define VF_FSTREAM(NAME, BASE, DFLT, FORCE)                                                                       \
    template<class C, class T> class NAME : public BASE<C, T> {                                                   \
        basic_filebuf<C, T> b_;                                                                                   \
    public:                                                                                                       \
        NAME() { this->init(&b_); }                                                                               \
        explicit NAME(const std::string& p, ios_base::openmode m = DFLT) { this->init(&b_); open(p, m); }         \
        explicit NAME(const char* p, ios_base::openmode m = DFLT) { this->init(&b_); open(std::string(p), m); }   \
        void open(const std::string& p, ios_base::openmode m = DFLT)                                              \
        {                                                                                                         \
            if (!b_.open(p, m | FORCE)) this->setstate(ios_base::failbit);                                        \
            else this->clear();                                                                                   \
        }                                                                                                         \
        void open(const char* p, ios_base::openmode m = DFLT) { open(std::string(p), m); }                        \
        bool is_open() const { return b_.is_open(); }                                                             \
        void close() { if (!b_.close()) this->setstate(ios_base::failbit); }                                      \
        basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b_); }                      \
    };
VF_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VF_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
VF_FSTREAM(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0u)
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& fixed(ios_base& b) { return b; }
inline ios_base& scientific(ios_base& b) { return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline ios_base& showbase(ios_base& b) { return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct vf_setw { int n; };
struct vf_setfill { char c; };
struct vf_setprec { int n; };
struct vf_setbase { int n; };
inline vf_setw setw(int n) { return {n}; }
inline vf_setfill setfill(char c) { return {c}; }
inline vf_setprec setprecision(int n) { return {n}; }
inline vf_setbase setbase(int n) { return {n}; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vf_setw w) { o.width(w.n); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vf_setfill f) { o.fill(f.c); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vf_setprec p) { o.precision(p.n); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vf_setbase b) { o.setf(b.n == 16 ? ios_base::hex : b.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
extern ostream cout, cerr, clog;
extern istream cin;
}
