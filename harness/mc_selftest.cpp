#include "mc.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <future>
#include <condition_variable>
#include <memory>
#include <vector>
struct S { std::mutex m; std::condition_variable cv; int x=0; std::atomic<int> a{0}; bool f=false; };
MC_SCENARIO(ok_counter) { auto s=std::make_shared<S>(); std::vector<std::thread> v; for(int i=0;i<2;i++) v.emplace_back([s]{ for(int k=0;k<2;k++){ std::lock_guard<std::mutex> l(s->m); s->x++; } }); for(auto&t:v) t.join(); MC_CHECK(s->x==4,"x="<<s->x); mc::outcome("ok"); }
MC_SCENARIO(bad_race) { auto s=std::make_shared<S>(); std::thread t([s]{ s->x++; }); s->x++; t.join(); }
MC_SCENARIO(bad_lost_update) { auto s=std::make_shared<S>(); auto f=[s]{ int v=s->a.load(); s->a.store(v+1); }; std::thread t(f); f(); t.join(); MC_CHECK(s->a==2,"lost update"); }
MC_SCENARIO(bad_lost_wakeup) { auto s=std::make_shared<S>(); std::thread t([s]{ s->a=1; s->cv.notify_one(); }); { std::unique_lock<std::mutex> l(s->m); while(s->a.load()==0) s->cv.wait(l); } t.join(); }
MC_SCENARIO(ok_wakeup) { auto s=std::make_shared<S>(); std::thread t([s]{ std::lock_guard<std::mutex> l(s->m); s->f=true; s->cv.notify_one(); }); { std::unique_lock<std::mutex> l(s->m); s->cv.wait(l,[&]{return s->f;}); } t.join(); }
MC_SCENARIO(ok_future) { std::promise<int> p; auto f=p.get_future(); std::thread t([&]{ p.set_value(3); }); MC_CHECK(f.get()==3,"v"); t.join(); }
MC_SCENARIO(ok_timeout) { auto s=std::make_shared<S>(); std::thread t([s]{ std::lock_guard<std::mutex> l(s->m); s->f=true; s->cv.notify_one(); }); bool r; { std::unique_lock<std::mutex> l(s->m); r=s->cv.wait_for(l,std::chrono::milliseconds(5),[&]{return s->f;}); } t.join(); mc::outcome(r?"sig":"timeout"); }
MC_SCENARIO(bad_deadlock) { auto s=std::make_shared<S>(); auto q=std::make_shared<S>(); std::thread t([=]{ std::lock_guard<std::mutex> l(s->m); std::lock_guard<std::mutex> k(q->m); }); { std::lock_guard<std::mutex> l(q->m); std::lock_guard<std::mutex> k(s->m);} t.join(); }
