// A model of the network library, for the checks: same names and documented behaviour as (Boost.)Asio, single threaded,
// with the outside world (peers, standard input, arrival of data, errors) driven by the harness.
//  - a handler is never invoked inside the call that starts the operation, but later by run/poll, in the order in which the operations become ready
//  - closing or destroying an i/o object completes its pending operations with operation_aborted (the handlers still run if the loop goes on)
//  - destroying the context destroys the handlers not yet invoked, without invoking them
//  - operations that fail throw system_error unless they take an error_code
#pragma once
#include <string>
#include <vector>
#include <array>
#include <deque>
#include <memory>
#include <functional>
#include <stdexcept>
#include <streambuf>
#include <istream>
#include <ostream>
#include <cstring>
#include <utility>
#include <type_traits>
#include <system_error>
#include <atomic>
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <limits>
#include <map>
#include <list>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include "asio/version.hpp"
namespace asio {
class error_code;
namespace error {
enum basic_errors { access_denied=13, address_in_use=98, bad_descriptor=9, broken_pipe=32, connection_aborted=103, connection_refused=111, connection_reset=104, interrupted=4, invalid_argument=22, no_descriptors=24, not_connected=107, not_socket=88, operation_aborted=125, shut_down=108, timed_out=110, try_again=11, would_block=11 };
enum misc_errors { already_open=1, eof=2, not_found=3, fd_set_failure=4 };
}
class error_code {
    int v=0, cat=0;
public:
    error_code() = default;
    error_code(error::basic_errors e) : v(e) {}
    error_code(error::misc_errors e) : v(e), cat(1) {}
    int value() const { return v; }
    explicit operator bool() const { return v!=0; }
    bool operator!() const { return v==0; }
    void clear() { v=0; cat=0; }
    std::string message() const { return "error"; }
    friend bool operator==(const error_code& a, const error_code& b) { return a.v==b.v && a.cat==b.cat; }
    friend bool operator!=(const error_code& a, const error_code& b) { return !(a==b); }
};
class system_error : public std::runtime_error { error_code c; public: explicit system_error(error_code e) : std::runtime_error("asio error"), c(e) {} system_error(error_code e, const char* w) : std::runtime_error(w), c(e) {} error_code code() const { return c; } };
namespace detail { inline void throw_error(const error_code& e) { if (e) throw system_error(e); } }
// buffers
struct mutable_buffer { void* p=nullptr; std::size_t n=0; mutable_buffer() = default; mutable_buffer(void* q, std::size_t m) : p(q), n(m) {} void* data() const { return p; } std::size_t size() const { return n; } };
struct const_buffer { const void* p=nullptr; std::size_t n=0; const_buffer() = default; const_buffer(const void* q, std::size_t m) : p(q), n(m) {} const_buffer(const mutable_buffer& b) : p(b.p), n(b.n) {} const void* data() const { return p; } std::size_t size() const { return n; } };
using mutable_buffers_1 = mutable_buffer; using const_buffers_1 = const_buffer;
inline mutable_buffer buffer(void* p, std::size_t n) { return {p,n}; }
inline const_buffer buffer(const void* p, std::size_t n) { return {p,n}; }
inline mutable_buffer buffer(const mutable_buffer& b) { return b; }
inline const_buffer buffer(const const_buffer& b) { return b; }
inline mutable_buffer buffer(const mutable_buffer& b, std::size_t n) { return {b.p, n<b.n?n:b.n}; }
inline const_buffer buffer(const const_buffer& b, std::size_t n) { return {b.p, n<b.n?n:b.n}; }
template <std::size_t N> mutable_buffer buffer(char (&a)[N]) { return {a,N}; }
template <std::size_t N> const_buffer buffer(const char (&a)[N]) { return {a,N}; }
template <std::size_t N> mutable_buffer buffer(char (&a)[N], std::size_t n) { return {a, n<N?n:N}; }
inline const_buffer buffer(const std::string& s) { return {s.data(),s.size()}; }
inline const_buffer buffer(const std::string& s, std::size_t n) { return {s.data(), n<s.size()?n:s.size()}; }
inline mutable_buffer buffer(std::string& s) { return {s.empty()?nullptr:&s[0],s.size()}; }
inline const_buffer buffer(const std::vector<char>& s) { return {s.data(),s.size()}; }
inline mutable_buffer buffer(std::vector<char>& s) { return {s.data(),s.size()}; }
template <std::size_t N> mutable_buffer buffer(std::array<char,N>& s) { return {s.data(),N}; }
inline std::size_t buffer_size(const const_buffer& b) { return b.n; }
inline std::size_t buffer_size(const mutable_buffer& b) { return b.n; }
inline const char* buffers_begin(const const_buffer& b) { return static_cast<const char*>(b.p); }
inline const char* buffers_end(const const_buffer& b) { return static_cast<const char*>(b.p)+b.n; }
template <typename B> using buffers_iterator = const char*;

class io_context;
namespace detail {
struct op { virtual ~op() = default; virtual void go() = 0; };
template <typename H> struct task_op : op { H h; template <typename T> explicit task_op(T&& t) : h(std::forward<T>(t)) {} void go() override { H l(std::move(h)); l(); } };
struct io_op { error_code ec; std::size_t n=0; virtual ~io_op() = default; virtual void complete() = 0; }; // an asynchronous transfer
template <typename H> struct io_op_of : io_op { H h; template <typename T> explicit io_op_of(T&& t) : h(std::forward<T>(t)) {} void complete() override { H l(std::move(h)); l(ec,n); } };
struct io_ready : op { std::unique_ptr<io_op> o; explicit io_ready(std::unique_ptr<io_op> x) : o(std::move(x)) {} void go() override { std::unique_ptr<io_op> l(std::move(o)); l->complete(); } };
struct object { io_context* ctx; explicit object(io_context& c); virtual ~object(); object(const object&) = delete; object& operator=(const object&) = delete; virtual void drop(std::vector<std::shared_ptr<void>>&) = 0; };
}
class io_context {
public:
    class executor_type {
    public:
        io_context* c; explicit executor_type(io_context& x) : c(&x) {}
        io_context& context() const { return *c; }
        void on_work_started() const { ++c->work_; } void on_work_finished() const { --c->work_; }
        bool running_in_this_thread() const { return c->depth>0; }
        template <typename F> void execute(F&& f) const;
        friend bool operator==(const executor_type& a, const executor_type& b) { return a.c==b.c; }
        friend bool operator!=(const executor_type& a, const executor_type& b) { return a.c!=b.c; }
    };
    using count_type = std::size_t;
    class work { io_context* c; public: explicit work(io_context& x) : c(&x) { ++c->work_; } work(const work& o) : c(o.c) { ++c->work_; } ~work() { --c->work_; } io_context& get_io_context() { return *c; } io_context& get_io_service() { return *c; } };
    io_context() { ++live(); }
    explicit io_context(int) : io_context() {}
    io_context(const io_context&) = delete; io_context& operator=(const io_context&) = delete;
    ~io_context() {
        --live();
        std::vector<std::shared_ptr<void>> pending; std::deque<std::unique_ptr<detail::op>> ready; dying=true;
        for (auto o : objects) o->drop(pending);
        ready.swap(q);
        pending.clear(); ready.clear(); q.clear();
    }
    executor_type get_executor() { return executor_type(*this); }
    template <typename F> void post(F&& f) { push(std::unique_ptr<detail::op>(new detail::task_op<typename std::decay<F>::type>(std::forward<F>(f)))); }
    template <typename F> void dispatch(F&& f) { if (depth>0) { typename std::decay<F>::type l(std::forward<F>(f)); l(); } else post(std::forward<F>(f)); }
    count_type run() { count_type n=0; while (one(true)) ++n; return n; }
    count_type run(error_code&) { return run(); }
    count_type run_one() { return one(true); }
    count_type poll() { count_type n=0; while (one(false)) ++n; return n; }
    count_type run_one(error_code&) { return one(true); }
    count_type poll(error_code&) { return poll(); }
    template <typename F> std::function<void()> wrap(F f) { return [this,f]() mutable { dispatch(f); }; }
    count_type poll_one() { return one(false); }
    count_type poll_one(error_code&) { return one(false); }
    void stop() { stopped_=true; }
    bool stopped() const { return stopped_; }
    void restart() { stopped_=false; }
    void reset() { stopped_=false; }
    // ---- for the harness
    std::function<bool()> idle;                 // called by run() when it would wait: the outside world makes something happen (false: nothing ever will)
    bool blocked=false;                         // run() would have waited for ever
    std::size_t outstanding() const { return work_; }
    std::size_t ready() const { return q.size(); }
    static int& live() { static int n=0; return n; }
    void push(std::unique_ptr<detail::op> o) { if (!dying) q.push_back(std::move(o)); else { std::unique_ptr<detail::op> l(std::move(o)); } }
    std::vector<detail::object*> objects; std::size_t work_=0; int depth=0; bool dying=false;
private:
    struct in { int& d; explicit in(int& x) : d(x) { ++d; } ~in() { --d; } };
    bool one(bool wait) {
        while (true) {
            if (stopped_) return false;
            if (!q.empty()) { std::unique_ptr<detail::op> o(std::move(q.front())); q.pop_front(); in g(depth); o->go(); return true; }
            if (work_==0) { stopped_=true; return false; }
            if (!wait) return false;
            if (!idle || !idle()) { blocked=true; return false; }
        }
    }
    std::deque<std::unique_ptr<detail::op>> q; bool stopped_=false;
};
template <typename F> void io_context::executor_type::execute(F&& f) const { c->post(std::forward<F>(f)); }
using io_service = io_context; using execution_context = io_context;
namespace detail {
inline object::object(io_context& c) : ctx(&c) { c.objects.push_back(this); }
inline object::~object() { auto& v=ctx->objects; for (std::size_t i=0;i<v.size();++i) if (v[i]==this) { v.erase(v.begin()+(long)i); break; } }
}
class any_io_executor { io_context* c=nullptr; public: any_io_executor() = default; any_io_executor(const io_context::executor_type& e) : c(e.c) {} io_context& context() const { return *c; } explicit operator bool() const { return c!=nullptr; } template <typename F> void execute(F&& f) const { c->post(std::forward<F>(f)); } bool operator==(const any_io_executor& o) const { return c==o.c; } bool operator!=(const any_io_executor& o) const { return c!=o.c; } };
using executor = any_io_executor;
template <typename E, typename F> auto post(const E& e, F&& f) -> decltype((void)e.context()) { e.context().post(std::forward<F>(f)); }
template <typename E, typename F> auto defer(const E& e, F&& f) -> decltype((void)e.context()) { e.context().post(std::forward<F>(f)); }
template <typename E, typename F> auto dispatch(const E& e, F&& f) -> decltype((void)e.context()) { e.context().dispatch(std::forward<F>(f)); }
template <typename F> void post(io_context& c, F&& f) { c.post(std::forward<F>(f)); }
template <typename F> void defer(io_context& c, F&& f) { c.post(std::forward<F>(f)); }
template <typename F> void dispatch(io_context& c, F&& f) { c.dispatch(std::forward<F>(f)); }
template <typename E> class executor_work_guard {
    io_context* c; bool owns=true;
public:
    explicit executor_work_guard(const E& e) : c(&e.context()) { ++c->work_; }
    executor_work_guard(const executor_work_guard& o) : c(o.c), owns(o.owns) { if (owns) ++c->work_; }
    executor_work_guard(executor_work_guard&& o) : c(o.c), owns(o.owns) { o.owns=false; }
    executor_work_guard& operator=(const executor_work_guard&) = delete;
    ~executor_work_guard() { reset(); }
    void reset() { if (owns) { owns=false; --c->work_; } }
    bool owns_work() const { return owns; }
    E get_executor() const { return E(*c); }
};
inline executor_work_guard<io_context::executor_type> make_work_guard(io_context& c) { return executor_work_guard<io_context::executor_type>(c.get_executor()); }
template <typename E> auto make_work_guard(const E& e) -> executor_work_guard<typename std::enable_if<!std::is_same<E,io_context>::value,E>::type> { return executor_work_guard<E>(e); }

// ---- the world outside
namespace mock {
struct conn { // one byte stream from / to the outside
    std::deque<std::string> in; error_code inError; // what is going to be read; then the error, if any
    std::string out; std::vector<std::string> writes; error_code outError; // what has been written; the error of the next writes
    std::size_t maxWrite=slow(); static std::size_t& slow() { static std::size_t n=(std::size_t)-1; return n; } // how many bytes the network takes at a time
    bool peerGone=false; int closes=0, shutdowns=0, failedWrites=0;
    detail::object* reader=nullptr; void (*kick)(detail::object*)=nullptr;
    void deliver(const std::string& s) { in.push_back(s); if (kick) kick(reader); }
    void fail(error_code e) { inError=e; peerGone=true; if (kick) kick(reader); }
};
inline std::shared_ptr<conn>& stdinConn() { static std::shared_ptr<conn> c=std::make_shared<conn>(); return c; }
}
namespace detail {
struct stream_impl : object {
    std::shared_ptr<mock::conn> c; bool open=false; std::unique_ptr<io_op> pending; mutable_buffer buf;
    explicit stream_impl(io_context& x) : object(x) {}
    ~stream_impl() override { close(); }
    void drop(std::vector<std::shared_ptr<void>>& v) override { if (pending) { --ctx->work_; v.push_back(std::shared_ptr<io_op>(std::move(pending))); } }
    void attach(std::shared_ptr<mock::conn> k) { c=std::move(k); open=true; c->reader=this; c->kick=[](object* o){ static_cast<stream_impl*>(o)->kick(); }; }
    void finish(error_code e, std::size_t n) { std::unique_ptr<io_op> o(std::move(pending)); o->ec=e; o->n=n; --ctx->work_; ctx->push(std::unique_ptr<op>(new io_ready(std::move(o)))); }
    std::size_t take(mutable_buffer b) { std::string& s=c->in.front(); std::size_t n=s.size()<b.n?s.size():b.n; std::memcpy(b.p,s.data(),n); if (n==s.size()) c->in.pop_front(); else s.erase(0,n); return n; }
    void kick() { if (!open || !pending) return; if (!c->in.empty()) { std::size_t n=take(buf); finish(error_code(),n); } else if (c->inError) finish(c->inError,0); }
    template <typename H> void read(mutable_buffer b, H&& h) {
        std::unique_ptr<io_op> o(new io_op_of<typename std::decay<H>::type>(std::forward<H>(h))); ++ctx->work_;
        if (pending) { std::unique_ptr<io_op> first(std::move(pending)); pending=std::move(o); finish(error::invalid_argument,0); pending=std::move(first); return; } // the model takes one at a time
        pending=std::move(o); buf=b;
        if (!open) finish(error::bad_descriptor,0); else if (b.n==0) finish(error_code(),0); else kick();
    }
    void cancel() { if (pending) finish(error::operation_aborted,0); }
    void close() { if (!open) return; open=false; c->reader=nullptr; c->kick=nullptr; ++c->closes; cancel(); }
};
class stream_base { // common part of sockets and descriptors
protected:
    io_context* x; std::unique_ptr<stream_impl> d;
    stream_impl& impl() { if (!d) d.reset(new stream_impl(*x)); return *d; }
public:
    using executor_type = any_io_executor;
    explicit stream_base(io_context& c) : x(&c) {}
    stream_base(stream_base&& o) : x(o.x), d(std::move(o.d)) {}
    stream_base& operator=(stream_base&& o) { if (this!=&o) { x=o.x; d=std::move(o.d); } return *this; }
    executor_type get_executor() const { return any_io_executor(x->get_executor()); }
    io_context& get_io_context() { return *x; } io_context& get_io_service() { return *x; }
    bool is_open() const { return d && d->open; }
    void close(error_code& e) { e=error_code(); if (d) d->close(); }
    void close() { if (d) d->close(); }
    void cancel(error_code& e) { if (!is_open()) { e=error::bad_descriptor; return; } e=error_code(); d->cancel(); }
    void cancel() { error_code e; cancel(e); throw_error(e); }
    std::size_t available(error_code& e) const { e=error_code(); if (!is_open()) { e=error::bad_descriptor; return 0; } return d->c->in.empty()?0:d->c->in.front().size(); }
    std::size_t available() const { error_code e; auto n=available(e); throw_error(e); return n; }
    std::size_t write_some(const_buffer b, error_code& e) {
        e=error_code(); if (!is_open()) { e=error::bad_descriptor; return 0; }
        auto& c=*d->c; if (c.outError) { e=c.outError; ++c.failedWrites; return 0; }
        std::size_t n=b.n<c.maxWrite?b.n:c.maxWrite; std::string s(static_cast<const char*>(b.p),n); c.out+=s; c.writes.push_back(s); return n;
    }
    std::size_t write_some(const_buffer b) { error_code e; auto n=write_some(b,e); throw_error(e); return n; }
    std::size_t read_some(mutable_buffer b, error_code& e) { e=error_code(); if (!is_open()) { e=error::bad_descriptor; return 0; } if (!d->c->in.empty()) return d->take(b); e = d->c->inError ? d->c->inError : error_code(error::would_block); return 0; }
    std::size_t read_some(mutable_buffer b) { error_code e; auto n=read_some(b,e); throw_error(e); return n; }
    template <typename H> void async_read_some(mutable_buffer b, H&& h) { impl().read(b,std::forward<H>(h)); }
    template <typename H> void async_receive(mutable_buffer b, H&& h) { impl().read(b,std::forward<H>(h)); }
    template <typename H> void async_send(const_buffer b, H&& h) { async_write_some(b,std::forward<H>(h)); }
    std::size_t send(const_buffer b) { return write_some(b); } std::size_t send(const_buffer b, int, error_code& e) { return write_some(b,e); } std::size_t send(const_buffer b, int) { return write_some(b); }
    std::size_t receive(mutable_buffer b) { return read_some(b); }
    template <typename H> void async_write_some(const_buffer b, H&& h) { error_code e; auto n=write_some(b,e); std::shared_ptr<typename std::decay<H>::type> k=std::make_shared<typename std::decay<H>::type>(std::forward<H>(h)); x->post([k,e,n](){ (*k)(e,n); }); }
    std::shared_ptr<mock::conn> mockConn() const { return d?d->c:nullptr; }
    void mockAttach(std::shared_ptr<mock::conn> c) { impl().attach(std::move(c)); }
};
}
class socket_base { public: enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both }; struct reuse_address { explicit reuse_address(bool) {} }; struct keep_alive { explicit keep_alive(bool) {} }; };
namespace ip {
class address { std::string s="0.0.0.0"; public: address() = default; explicit address(std::string x) : s(std::move(x)) {} std::string to_string() const { return s; } static address from_string(const std::string& x) { return address(x); } static address any() { return address(); } };
using address_v4 = address;
inline address make_address(const std::string& s) { return address(s); }
inline address make_address(const char* s) { return address(s); }
inline address make_address(const std::string& s, error_code& e) { e=error_code(); return address(s); }
class tcp {
public:
    static tcp v4() { return tcp(); } static tcp v6() { return tcp(); }
    class endpoint { address a; unsigned short p=0; public: endpoint() = default; endpoint(const tcp&, unsigned short x) : p(x) {} endpoint(const address& y, unsigned short x) : a(y), p(x) {} unsigned short port() const { return p; } class address address() const { return a; } };
    struct no_delay { explicit no_delay(bool) {} };
    class socket : public socket_base, public detail::stream_base {
    public:
        using detail::stream_base::stream_base;
        socket(socket&&) = default; socket& operator=(socket&&) = default;
        void shutdown(shutdown_type, error_code& e) { e=error_code(); if (!is_open()) { e=error::bad_descriptor; return; } if (d->c->peerGone) { e=error::not_connected; return; } ++d->c->shutdowns; }
        void shutdown(shutdown_type t) { error_code e; shutdown(t,e); detail::throw_error(e); }
        endpoint remote_endpoint(error_code& e) const { e=error_code(); if (!is_open()) e=error::bad_descriptor; else if (d->c->peerGone) e=error::not_connected; return endpoint(); }
        endpoint remote_endpoint() const { error_code e; auto r=remote_endpoint(e); detail::throw_error(e); return r; }
        endpoint local_endpoint(error_code& e) const { e=error_code(); return endpoint(); }
        endpoint local_endpoint() const { return endpoint(); }
        template <typename O> void set_option(const O&, error_code& e) { e = is_open() ? error_code() : error_code(error::bad_descriptor); }
        template <typename O> void set_option(const O& o) { error_code e; set_option(o,e); detail::throw_error(e); }
        bool non_blocking() const { return false; } void non_blocking(bool) {}
        int native_handle() const { return -1; }
    };
    class acceptor : public socket_base {
        struct acc : detail::object {
            bool open=true; struct waiting { virtual ~waiting() = default; virtual std::unique_ptr<detail::op> done(error_code, socket) = 0; }; std::unique_ptr<waiting> w;
            explicit acc(io_context& c) : object(c) {}
            ~acc() override { close(); }
            void drop(std::vector<std::shared_ptr<void>>& v) override { if (w) { --ctx->work_; v.push_back(std::shared_ptr<waiting>(std::move(w))); } }
            void done(error_code e, socket s) { std::unique_ptr<waiting> l(std::move(w)); --ctx->work_; ctx->push(l->done(e,std::move(s))); }
            void cancel() { if (w) done(error::operation_aborted,socket(*ctx)); }
            void close() { if (open) { open=false; cancel(); } }
        };
        template <typename H> struct ready : detail::op { H h; error_code e; socket s; ready(H x, error_code c, socket k) : h(std::move(x)), e(c), s(std::move(k)) {} void go() override { H l(std::move(h)); l(e,std::move(s)); } };
        template <typename H> struct waiting_of : acc::waiting { H h; template <typename T> explicit waiting_of(T&& t) : h(std::forward<T>(t)) {} std::unique_ptr<detail::op> done(error_code e, socket s) override { return std::unique_ptr<detail::op>(new ready<H>(std::move(h),e,std::move(s))); } };
        io_context* x; std::unique_ptr<acc> a;
    public:
        acceptor(io_context& c, const endpoint&, bool=true) : x(&c), a(new acc(c)) { last()=this; }
        acceptor(acceptor&& o) : x(o.x), a(std::move(o.a)) { last()=this; }
        acceptor(const acceptor&) = delete; acceptor& operator=(const acceptor&) = delete;
        ~acceptor() { if (last()==this) last()=nullptr; }
        template <typename H> void async_accept(H&& h) { a->w.reset(new waiting_of<typename std::decay<H>::type>(std::forward<H>(h))); ++x->work_; if (!a->open) a->done(error::bad_descriptor,socket(*x)); }
        template <typename H> auto async_accept(socket& s, H&& h) -> decltype(h(error_code())) { typename std::decay<H>::type k(std::forward<H>(h)); socket* p=&s; async_accept([p,k](error_code e, socket n) mutable { if (!e) *p=std::move(n); k(e); }); }
        bool is_open() const { return a && a->open; }
        void close() { if (a) a->close(); } void close(error_code& e) { e=error_code(); close(); }
        void cancel() { if (a) a->cancel(); } void cancel(error_code& e) { e=error_code(); cancel(); }
        any_io_executor get_executor() const { return any_io_executor(x->get_executor()); }
        template <typename O> void set_option(const O&) {} template <typename O> void set_option(const O&, error_code& e) { e=error_code(); }
        endpoint local_endpoint() const { return endpoint(); }
        // ---- for the harness
        static acceptor*& last() { static acceptor* p=nullptr; return p; }
        bool mockWaiting() const { return a && a->w; }
        std::shared_ptr<mock::conn> mockConnect() { auto c=std::make_shared<mock::conn>(); socket s(*x); s.mockAttach(c); a->done(error_code(),std::move(s)); return c; }
        void mockFail(error_code e) { a->done(e,socket(*x)); }
    };
};
}
namespace posix {
class stream_descriptor : public detail::stream_base {
    int fd=-1;
public:
    using native_handle_type = int;
    explicit stream_descriptor(io_context& c) : stream_base(c) {}
    stream_descriptor(io_context& c, int f) : stream_base(c), fd(f) { assign(f); }
    stream_descriptor(stream_descriptor&&) = default; stream_descriptor& operator=(stream_descriptor&&) = default;
    void assign(int f) { fd=f; mockAttach(mock::stdinConn()); }
    int native_handle() const { return fd; }
    int release() { close(); return fd; }
};
using descriptor = stream_descriptor;
}
class streambuf : public std::streambuf {
    std::vector<char> b; std::size_t max;
    enum { delta=128 };
    void reserve(std::size_t n) {
        std::size_t g=(std::size_t)(gptr()-b.data()), p=(std::size_t)(pptr()-b.data()), e=(std::size_t)(epptr()-b.data());
        if (n<=e-p) return;
        if (g>0) { p-=g; std::memmove(b.data(),b.data()+g,p); }
        if (n>e-p) { if (n<=max && p<=max-n) { e=p+n; b.resize(e?e:1); } else throw std::length_error("asio::streambuf too long"); }
        char* q=b.data(); setg(q,q,q+p); setp(q+p,q+e);
    }
public:
    using const_buffers_type = const_buffer; using mutable_buffers_type = mutable_buffer;
    explicit streambuf(std::size_t m = (std::size_t)-1) : max(m) { b.resize(m<(std::size_t)delta?(m?m:1):(std::size_t)delta); setg(b.data(),b.data(),b.data()); setp(b.data(),b.data()+b.size()); }
    std::size_t size() const { return (std::size_t)(pptr()-gptr()); }
    std::size_t max_size() const { return max; }
    std::size_t capacity() const { return b.capacity(); }
    const_buffer data() const { return const_buffer(gptr(),size()); }
    mutable_buffer prepare(std::size_t n) { reserve(n); return mutable_buffer(pptr(),n); }
    void commit(std::size_t n) { if (pptr()+n>epptr()) n=(std::size_t)(epptr()-pptr()); pbump((int)n); setg(eback(),gptr(),pptr()); }
    void consume(std::size_t n) { if (egptr()<pptr()) setg(b.data(),gptr(),pptr()); if (gptr()+n>pptr()) n=(std::size_t)(pptr()-gptr()); gbump((int)n); }
protected:
    int underflow() override { if (gptr()<pptr()) { setg(b.data(),gptr(),pptr()); return (unsigned char)*gptr(); } return -1; }
    int overflow(int c) override { if (c!=-1) { if (pptr()==epptr()) { if (size()<max && max-size()<(std::size_t)delta) reserve(max-size()); else reserve(delta); } *pptr()=(char)c; pbump(1); return c; } return 0; }
};
namespace detail {
inline bool findDelim(const streambuf& s, std::size_t from, const std::string& delim, std::size_t& len) { auto d=s.data(); const char* p=buffers_begin(d); for (std::size_t i=from;i+delim.size()<=d.n;++i) if (std::memcmp(p+i,delim.data(),delim.size())==0) { len=i+delim.size(); return true; } return false; }
template <typename S, typename H> struct read_until_op {
    S& s; streambuf& b; std::string delim; std::size_t pos; H h;
    void operator()(error_code ec, std::size_t n) { b.commit(n); std::size_t len=0; if (!ec && n>0 && more(len)) return; if (ec || n==0) { if (!ec) ec=error::eof; h(ec,(std::size_t)0); return; } if (len) h(error_code(),len); else h(error_code(error::not_found),(std::size_t)0); }
    // true: another read has been started
    bool more(std::size_t& len) { if (findDelim(b,pos,delim,len)) return false; len=0; if (b.size()>=b.max_size()) return false; pos = b.size()>=delim.size() ? b.size()-delim.size()+1 : 0; std::size_t room=b.max_size()-b.size(); if (room>512) room=512; S& st=s; auto m=b.prepare(room); st.async_read_some(m,read_until_op(std::move(*this))); return true; }
};
}
template <typename S, typename H> void async_read_until(S& s, streambuf& b, const std::string& delim, H&& h) {
    using D=typename std::decay<H>::type; detail::read_until_op<S,D> o{s,b,delim,0,D(std::forward<H>(h))}; std::size_t len=0;
    if (detail::findDelim(b,0,delim,len)) { auto k=std::make_shared<D>(std::move(o.h)); s.get_executor().context().post([k,len](){ (*k)(error_code(),len); }); return; }
    if (b.size()>=b.max_size()) { auto k=std::make_shared<D>(std::move(o.h)); s.get_executor().context().post([k](){ (*k)(error_code(error::not_found),(std::size_t)0); }); return; }
    o.more(len);
}
template <typename S, typename H> void async_read_until(S& s, streambuf& b, char delim, H&& h) { async_read_until(s,b,std::string(1,delim),std::forward<H>(h)); }
// a string as a growing buffer: longer than its contents while a read is going on
class dynamic_string_buffer { std::string* s; std::size_t n, max; public: dynamic_string_buffer(std::string& x, std::size_t m) : s(&x), n(x.size()), max(m) {} std::size_t size() const { return n; } std::size_t max_size() const { return max; } const_buffer data() const { return const_buffer(s->data(),n); } mutable_buffer prepare(std::size_t k) { if (n>max || max-n<k) throw std::length_error("dynamic_string_buffer too long"); s->resize(n+k); return mutable_buffer(&(*s)[n],k); } void commit(std::size_t k) { std::size_t r=s->size()-n; n+=k<r?k:r; s->resize(n); } void consume(std::size_t k) { k=k<n?k:n; s->erase(0,k); n-=k; } };
inline dynamic_string_buffer dynamic_buffer(std::string& s) { return dynamic_string_buffer(s,(std::size_t)-1); }
inline dynamic_string_buffer dynamic_buffer(std::string& s, std::size_t max) { return dynamic_string_buffer(s,max); }
namespace detail {
inline bool findDelimIn(const const_buffer& d, std::size_t from, const std::string& delim, std::size_t& len) { const char* p=buffers_begin(d); for (std::size_t i=from;i+delim.size()<=d.n;++i) if (std::memcmp(p+i,delim.data(),delim.size())==0) { len=i+delim.size(); return true; } return false; }
template <typename S, typename H> struct read_until_dyn {
    S& s; dynamic_string_buffer b; std::string delim; std::size_t pos; H h;
    void operator()(error_code ec, std::size_t n) { b.commit(n); std::size_t len=0; if (!ec && n>0 && more(len)) return; if (ec || n==0) { if (!ec) ec=error::eof; h(ec,(std::size_t)0); return; } if (len) h(error_code(),len); else h(error_code(error::not_found),(std::size_t)0); }
    bool more(std::size_t& len) { if (findDelimIn(b.data(),pos,delim,len)) return false; len=0; if (b.size()>=b.max_size()) return false; pos = b.size()>=delim.size() ? b.size()-delim.size()+1 : 0; std::size_t room=b.max_size()-b.size(); if (room>512) room=512; S& st=s; auto m=b.prepare(room); st.async_read_some(m,read_until_dyn(std::move(*this))); return true; }
};
}
template <typename S, typename H> void async_read_until(S& s, dynamic_string_buffer b, const std::string& delim, H&& h) {
    using D=typename std::decay<H>::type; detail::read_until_dyn<S,D> o{s,b,delim,0,D(std::forward<H>(h))}; std::size_t len=0;
    if (detail::findDelimIn(b.data(),0,delim,len)) { auto k=std::make_shared<D>(std::move(o.h)); s.get_executor().context().post([k,len](){ (*k)(error_code(),len); }); return; }
    if (b.size()>=b.max_size()) { auto k=std::make_shared<D>(std::move(o.h)); s.get_executor().context().post([k](){ (*k)(error_code(error::not_found),(std::size_t)0); }); return; }
    o.more(len);
}
template <typename S, typename H> void async_read_until(S& s, dynamic_string_buffer b, char delim, H&& h) { async_read_until(s,b,std::string(1,delim),std::forward<H>(h)); }
namespace detail { struct transfer_all_t {}; }
inline detail::transfer_all_t transfer_all() { return {}; }
template <typename S> std::size_t write(S& s, const const_buffer& b, error_code& e) { std::size_t done=0; e=error_code(); while (done<b.n && !e) done+=s.write_some(const_buffer(static_cast<const char*>(b.p)+done,b.n-done),e); return done; }
template <typename S> std::size_t write(S& s, const const_buffer& b) { error_code e; auto n=write(s,b,e); detail::throw_error(e); return n; }
template <typename S> std::size_t write(S& s, const mutable_buffer& b, error_code& e) { return write(s,const_buffer(b),e); }
template <typename S> std::size_t write(S& s, const mutable_buffer& b) { return write(s,const_buffer(b)); }
namespace detail { // one piece at a time, reading the buffer when the network takes it
template <typename S, typename H> struct write_op { S& s; const_buffer b; std::size_t done; H h; void operator()(error_code e, std::size_t n) { done+=n; if (e || done>=b.n) { h(e,done); return; } const_buffer rest(static_cast<const char*>(b.p)+done,b.n-done); S& st=s; write_op o(std::move(*this)); st.async_write_some(rest,std::move(o)); } };
}
template <typename S, typename H> void async_write(S& s, const const_buffer& b, H&& h) { using D=typename std::decay<H>::type; s.async_write_some(b,detail::write_op<S,D>{s,b,0,D(std::forward<H>(h))}); }
template <typename S, typename H> void async_write(S& s, const mutable_buffer& b, H&& h) { async_write(s,const_buffer(b),std::forward<H>(h)); }
template <typename S, typename B> std::size_t write(S& s, const B& b, detail::transfer_all_t, error_code& e) { return write(s,const_buffer(b),e); }
template <typename S, typename B> std::size_t write(S& s, const B& b, detail::transfer_all_t) { return write(s,const_buffer(b)); }
// strands: one thread runs the context in the model
template <typename E> class strand { any_io_executor e; public: explicit strand(const E& x) : e(x) {} io_context& context() const { return e.context(); } operator any_io_executor() const { return e; } };
template <typename E> auto make_strand(const E& e) -> decltype((void)e.context(),strand<E>(e)) { return strand<E>(e); }
inline strand<io_context::executor_type> make_strand(io_context& c) { return strand<io_context::executor_type>(c.get_executor()); }
template <typename E, typename H> typename std::decay<H>::type bind_executor(const E&, H&& h) { return std::forward<H>(h); }
}
