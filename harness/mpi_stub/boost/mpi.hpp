// In-process stand-in for Boost.MPI: every rank is a thread, messages travel through
// mailboxes, and whether a pending receive is already seen as finished is a choice of
// the scheduler. Only what k52 and its tasks use is provided.
#ifndef VERIF_BOOST_MPI_STUB
#define VERIF_BOOST_MPI_STUB
#include <any>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <list>
#include <boost/optional.hpp>
#include <boost/serialization/access.hpp>

namespace mpi_stub
{
struct Message { int from, to, tag; std::any value; };
int rank();
int size();
void post(int to, int tag, const std::any& v);
// true (and the message) if one is there, regardless of delays
bool take(int from, int to, int tag, std::any& v);
bool may_deliver();          // scheduler choice: let a finished request look finished?
void pause();                // blocking receive: let others run
// a communicator may only be used between its construction and its destruction
void born(const void* c);
void dead(const void* c);
void must_be_alive(const void* c);
}

namespace boost { namespace mpi {

class status { public: int source() const { return 0; } };

class environment
{
public:
    environment() {}
    environment(int&, char**&) {}
    static std::string processor_name() { return "stub"; }
    static bool initialized() { return true; }
};

class request
{
public:
    typedef std::function<bool()> poll_t;
    struct state { poll_t poll; bool done; std::function<void()> on_done; };
    std::shared_ptr<state> s;
    request() {}
    explicit request(poll_t p, std::function<void()> d = std::function<void()>()) : s(new state())
    { s->poll = p; s->done = false; s->on_done = d; }
    boost::optional<status> test()
    {
        if(!s) return status();
        if(s->done) throw std::runtime_error("test() of a finished request");
        if(mpi_stub::may_deliver() && s->poll())
        {
            s->done = true;
            if(s->on_done) s->on_done();
            return status();
        }
        return boost::none;
    }
    status wait()
    {
        if(!s || s->done) return status();
        while(!s->poll()) mpi_stub::pause();
        s->done = true;
        if(s->on_done) s->on_done();
        return status();
    }
};

const int any_source = -1;
const int any_tag = -1;

class communicator
{
public:
    communicator() { mpi_stub::born(this); }
    communicator(const communicator&) { mpi_stub::born(this); }
    ~communicator() { mpi_stub::dead(this); }
    int rank() const { mpi_stub::must_be_alive(this); return mpi_stub::rank(); }
    int size() const { mpi_stub::must_be_alive(this); return mpi_stub::size(); }
    template <class T> void send(int dest, int tag, const T& v) const
    { mpi_stub::must_be_alive(this); mpi_stub::post(dest, tag, std::any(v)); }
    template <class T> status recv(int source, int tag, T& v) const
    {
        mpi_stub::must_be_alive(this);
        std::any a;
        while(!mpi_stub::take(source, rank(), tag, a)) mpi_stub::pause();
        v = std::any_cast<T>(a);
        return status();
    }
    template <class T> request irecv(int source, int tag, T& v) const
    {
        mpi_stub::must_be_alive(this);
        T* p = &v; int me = rank();
        return request([=]() { std::any a; if(!mpi_stub::take(source, me, tag, a)) return false;
                               *p = std::any_cast<T>(a); return true; });
    }
    template <class T> request isend(int dest, int tag, const T& v) const
    {
        send(dest, tag, v);
        return request([]() { return true; });
    }
};

template <class It> void wait_all(It b, It e) { for(; b != e; ++b) b->wait(); }
} }
#endif
