// compiled without instrumentation
#include <taskflow/taskflow.hpp>
#include <vector>

namespace tf {
int default_workers = 4;

struct Node {
  std::function<void()> fn;
  std::vector<Node*> succ, pred;
  int left = 0;
  Flow* flow = nullptr;
};
struct Flow {
  std::vector<Node*> nodes;
  std::vector<std::shared_ptr<Run>> runs;
};
struct Run {
  int left = 0;
  bool done = false;
  bool started = false;
  std::function<void()> cb;
  Flow* flow = nullptr;
};
struct ExecutorImpl {
  size_t slots;
  size_t busy = 0;
  std::vector<std::pair<Node*, std::shared_ptr<Run>>> ready;
  std::vector<std::shared_ptr<Run>> runs;
  std::vector<std::shared_ptr<Run>> queued;  // runs of a taskflow that already runs
  void pump();
  void start(std::shared_ptr<Run> r);
  void finish(Node* n, std::shared_ptr<Run> r);
};

void Task::edge(Node* a, Node* b) {
  sim::Quiet q;
  a->succ.push_back(b);
  b->pred.push_back(a);
}

Taskflow::Taskflow() {
  sim::Quiet q;
  flow_ = new Flow;
}
Taskflow::~Taskflow() {
  for (auto& r : flow_->runs)
    if (!r->done) sim::violation("taskflow-destroyed", "a Taskflow is destroyed while the executor still runs it");
  std::vector<Node*> nodes;
  {
    sim::Quiet q;
    bool busy = false;
    for (auto& r : flow_->runs) busy |= !r->done;
    if (busy) return;  // leaked, so that the simulator itself survives
    nodes.swap(flow_->nodes);
    delete flow_;
  }
  for (auto n : nodes) {
    n->fn = nullptr;  // destroys the closures as the real one does
    sim::Quiet q;
    delete n;
  }
}
Task Taskflow::add(std::function<void()> f) {
  Node* n;
  {
    sim::Quiet q;
    n = new Node;
    n->flow = flow_;
    flow_->nodes.push_back(n);
  }
  n->fn = std::move(f);
  return Task(n);
}
bool Taskflow::empty() const { return flow_->nodes.empty(); }
size_t Taskflow::num_tasks() const { return flow_->nodes.size(); }
void Taskflow::clear() {
  for (auto n : flow_->nodes) n->fn = nullptr;
  sim::Quiet q;
  for (auto n : flow_->nodes) delete n;
  flow_->nodes.clear();
}

void ExecutorImpl::pump() {
  while (busy < slots && !ready.empty()) {
    size_t i = sim::draw() % ready.size();
    auto nr = ready[i];
    ready.erase(ready.begin() + i);
    busy++;
    sim::n_tasks++;
    Node* n = nr.first;
    std::shared_ptr<Run> r = nr.second;
    sim::spawn("task" + std::to_string(sim::n_tasks), [this, n, r]() mutable {
      sim::hb_reset();
      sim::hb_acquire(r.get());
      for (auto p : n->pred) sim::hb_acquire(p);
      sim::yield("task");
      try {
        n->fn();
      } catch (const std::exception& e) {
        // cpp-taskflow has no exception handling: the exception leaves a worker thread
        sim::fatal("terminate", std::string("an exception left a task of the executor: ") + e.what());
      }
      sim::yield("task-end");
      sim::hb_release(n);
      std::function<void()> cb;
      {
        sim::Quiet q;
        finish(n, r);
        if (r->left == 0 && !r->done) cb = r->cb;
      }
      if (cb) cb();
      sim::Quiet q;
      if (r->left == 0 && !r->done) {
        for (auto m : r->flow->nodes) sim::hb_acquire(m);
        sim::hb_release((char*)r.get() + 1);
        r->done = true;
      }
      busy--;
      pump();
      r.reset();
    });
  }
}
void ExecutorImpl::finish(Node* n, std::shared_ptr<Run> r) {
  r->left--;
  for (auto s : n->succ)
    if (--s->left == 0) ready.emplace_back(s, r);
}
void ExecutorImpl::start(std::shared_ptr<Run> r) {
  r->started = true;
  for (auto n : r->flow->nodes) n->left = n->pred.size();
  for (auto n : r->flow->nodes)
    if (n->pred.empty()) ready.emplace_back(n, r);
  pump();
}

Executor::Executor(size_t n) {
  sim::Quiet q;
  impl_ = new ExecutorImpl;
  impl_->slots = n ? n : default_workers;
}
Executor::~Executor() {
  wait_for_all();
  sim::Quiet q;
  delete impl_;
}
void Executor::wait_for_all() {
  auto impl = impl_;
  sim::wait_until([impl] {
    for (auto& r : impl->runs)
      if (!r->done) return false;
    return impl->busy == 0;
  });
  for (auto& r : impl_->runs) sim::hb_acquire((char*)r.get() + 1);
}
size_t Executor::num_workers() const { return impl_->slots; }
RunFuture Executor::run(Taskflow& t) { return run_cb(t, nullptr); }
RunFuture Executor::run_cb(Taskflow& t, std::function<void()> cb) {
  auto r = std::shared_ptr<Run>();
  {
    sim::Quiet q;
    r = std::make_shared<Run>();
    r->cb = cb;
    r->flow = t.flow_;
    r->left = t.flow_->nodes.size();
    sim::hb_release(r.get());
    for (auto& o : t.flow_->runs)
      if (!o->done) sim::violation("harness", "a running Taskflow is run again");
    t.flow_->runs.push_back(r);
    impl_->runs.push_back(r);
    if (r->left == 0)
      r->done = true;
    else
      impl_->start(r);
  }
  sim::yield("run");
  return RunFuture(r);
}
bool RunFuture::wait_us(int64_t us) const {
  auto r = r_.get();
  bool ok = sim::wait_until([r] { return r->done; }, us < 0 ? -1 : sim::now_us() + us);
  if (ok) sim::hb_acquire((char*)r + 1);
  return ok;
}
}  // namespace tf
