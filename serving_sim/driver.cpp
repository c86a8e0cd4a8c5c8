// Reads one case per line from stdin, runs it in the simulator, writes one result line per case.
#include "simrt.h"

#include <signal.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <iostream>

#define private public
#define protected public
#include "reagent/serving/cli/Server.h"
#undef private
#undef protected
#include "reagent/serving/core/DecisionService.h"
#include "reagent/serving/core/DiskConfigProvider.h"
#include "reagent/serving/core/InMemoryLogJoiner.h"
#include "reagent/serving/core/LocalRealTimeCounter.h"
#include "reagent/serving/core/OperatorFactory.h"
#include "reagent/serving/core/SharedParameterHandler.h"
#include "reagent/serving/operators/PropensityFit.h"
#include "reagent/serving/operators/Ucb.h"

namespace tf {
extern int default_workers;
}

using reagent::json;
using namespace reagent;

static json kase;
static json events;

static json value_json(const ConstantValue& v) {
  return std::visit(
      [](auto&& a) -> json {
        using T = std::decay_t<decltype(a)>;
        json j;
        if constexpr (std::is_same_v<T, std::string>)
          j["string_value"] = a;
        else if constexpr (std::is_same_v<T, int64_t>)
          j["int_value"] = a;
        else if constexpr (std::is_same_v<T, double>)
          j["double_value"] = a;
        else if constexpr (std::is_same_v<T, StringList>)
          j["list_string_value"] = a;
        else if constexpr (std::is_same_v<T, std::vector<int64_t>>)
          j["list_int_value"] = a;
        else if constexpr (std::is_same_v<T, std::vector<double>>)
          j["list_double_value"] = a;
        else if constexpr (std::is_same_v<T, StringStringMap>)
          j["map_string_value"] = a;
        else if constexpr (std::is_same_v<T, StringIntMap>)
          j["map_int_value"] = a;
        else if constexpr (std::is_same_v<T, StringDoubleMap>)
          j["map_double_value"] = a;
        else if constexpr (std::is_same_v<T, RankedActionList>) {
          j["ranked_action_list"] = json::array();
          for (auto& d : a) j["ranked_action_list"].push_back({{"name", d.name}, {"propensity", d.propensity}});
        } else
          j["map_map_double_value"] = a;
        return j;
      },
      v);
}

static void event(json e) {
  e["t"] = sim::now_us();
  e["th"] = sim::self();
  events.push_back(std::move(e));
}

static double look(const char* table, const std::string& key, double dflt) {
  if (!kase.count(table)) return dflt;
  auto& t = kase[table];
  if (!t.count(key)) return dflt;
  return t[key].get<double>();
}

// common behaviour of the simulated operators: time, faults
static void behave(const std::string& name, const DecisionRequest& request) {
  std::string key;
  double ms, bad;
  {
    sim::Quiet q;
    key = request.request_id + "/" + name;
    ms = look("delay", key, 0);
    bad = look("throw", key, 0);
  }
  sim::yield("op");
  if (ms > 0) sim::sleep_ms(int64_t(ms));
  if (bad == 1) throw std::runtime_error("simulated failure of " + name);
  if (bad == 2) throw std::bad_variant_access();
  sim::yield("op");
}

static int64_t digest(const std::string& name) {
  int64_t h = 0;
  for (unsigned char c : name) h = (h * 131 + c) % 1000003;
  return h;
}

class SimOp : public Operator {
 public:
  using Operator::Operator;
  OperatorData run(const DecisionRequest& request, const StringOperatorDataMap& in) override {
    {
      sim::Quiet q;
      json ins = json::object();
      for (auto& i : in) ins[i.first] = value_json(i.second);
      event({{"ev", "op-start"}, {"op", name_}, {"plan", planName_}, {"rid", request.request_id}, {"in", ins}});
    }
    behave(name_, request);
    int64_t v = digest(name_);
    {
      std::map<std::string, OperatorData> sorted(in.begin(), in.end());
      int64_t k = 1;
      for (auto& i : sorted) {
        v = (v + k * int64_t(std::get<StringDoubleMap>(i.second).at("v"))) % 1000003;
        k++;
      }
      v = (v * 31 + digest(request.request_id)) % 1000003;
    }
    {
      sim::Quiet q;
      event({{"ev", "op-end"}, {"op", name_}, {"rid", request.request_id}, {"v", v}});
    }
    return make(v);
  }
  virtual OperatorData make(int64_t v) {
    StringDoubleMap m{{"v", double(v)}};
    return m;
  }
  void giveFeedback(const Feedback& f, const StringOperatorDataMap& in, const OperatorData& out) override {
    sim::Quiet q;
    json ins = json::object();
    for (auto& i : in) ins[i.first] = value_json(i.second);
    json acts = json::array();
    for (auto& a : f.actions) {
      json x{{"name", a.name}, {"metrics", a.metrics}};
      x["reward"] = a.computed_reward ? json(*a.computed_reward) : json();
      acts.push_back(x);
    }
    event({{"ev", "feedback"}, {"op", name_}, {"plan", planName_}, {"rid", f.request_id}, {"in", ins},
           {"out", value_json(out)}, {"actions", acts},
           {"reward", f.computed_reward ? json(*f.computed_reward) : json()}});
  }
};
class SimRank : public SimOp {
 public:
  using SimOp::SimOp;
  OperatorData make(int64_t v) override {
    RankedActionList l{{"a" + std::to_string(v % 7), 0.25}, {"b", double(v) / 1000003}};
    return l;
  }
};
// passes its input on, with the usual delays and faults
class SimPass : public SimOp {
 public:
  using SimOp::SimOp;
  OperatorData run(const DecisionRequest& request, const StringOperatorDataMap& in) override {
    behave(name_, request);
    return in.at("values");
  }
  void giveFeedback(const Feedback&, const StringOperatorDataMap&, const OperatorData&) override {}
};
namespace reagent {
std::shared_ptr<Operator> mkSimOp(const std::string& a, const std::string& b, const StringStringMap& c, const DecisionService* const d) {
  return std::make_shared<SimOp>(a, b, c, d);
}
std::shared_ptr<Operator> mkSimRank(const std::string& a, const std::string& b, const StringStringMap& c, const DecisionService* const d) {
  return std::make_shared<SimRank>(a, b, c, d);
}
std::shared_ptr<Operator> mkSimPass(const std::string& a, const std::string& b, const StringStringMap& c, const DecisionService* const d) {
  return std::make_shared<SimPass>(a, b, c, d);
}
}  // namespace reagent

class SimScorer : public ActionValueScorer {
 public:
  StringDoubleMap predict(const DecisionRequest& request, int model, int snapshot) override {
    behave("scorer", request);
    StringDoubleMap m;
    for (auto& n : request.actions.names)
      m[n] = double(digest(n + std::to_string(model) + "." + std::to_string(snapshot)) % 1000) / 100;
    return m;
  }
};

static void result(json r) {
  r["events"] = events;
  r["simtime_us"] = sim::now_us();
  r["steps"] = sim::steps();
  r["switches"] = sim::switches();
  r["accesses"] = sim::n_accesses;
  r["tasks"] = sim::n_tasks;
  r["locks"] = sim::n_mutex;
  r["io_faults"] = sim::n_io_faults;
  std::string c, m;
  if (sim::have_violation(&c, &m) && !r.count("viol")) r["viol"] = {c, m};
  std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace);
  s += "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}

struct OpState {
  bool done = false;
  std::string rid;
};

static json details(const DecisionWithFeedback& d) {
  json j = json::object();
  if (d.decision_request) {
    auto& r = *d.decision_request;
    j["request"] = {{"request_id", r.request_id}, {"plan_name", r.plan_name}, {"names", r.actions.names},
                    {"features", r.actions.features}, {"context_features", r.context_features}, {"input", value_json(r.input)}};
  }
  if (d.decision_response) {
    auto& r = *d.decision_response;
    j["response"] = {{"request_id", r.request_id}, {"plan_name", r.plan_name},
                     {"actions", value_json(ConstantValue(r.actions))["ranked_action_list"]}, {"duration", r.duration}};
  }
  if (d.operator_outputs) {
    j["outputs"] = json::object();
    for (auto& o : *d.operator_outputs) j["outputs"][o.first] = value_json(o.second);
  }
  if (d.feedback) {
    auto& f = *d.feedback;
    json acts = json::array();
    for (auto& a : f.actions) {
      json x{{"name", a.name}, {"metrics", a.metrics}};
      x["reward"] = a.computed_reward ? json(*a.computed_reward) : json();
      acts.push_back(x);
    }
    j["feedback"] = {{"request_id", f.request_id}, {"plan_name", f.plan_name}, {"actions", acts},
                     {"reward", f.computed_reward ? json(*f.computed_reward) : json()}};
  }
  return j;
}

static void run_case() {
  sim::Options o;
  o.seed = kase.value("seed", uint64_t(1));
  o.switch_p = kase.value("switch", 0.5);
  o.races = kase.value("races", true);
  o.epoch_ms += kase.value("epoch_ms", int64_t(0));
  tf::default_workers = kase.value("workers", 4);
  events = json::array();
  if (kase.count("io"))
    for (auto& f : kase["io"].items()) sim::io_faults[f.key()] = f.value().get<std::string>();
  sim::begin(o);
  {
    std::shared_ptr<InMemoryLogJoiner> joiner;
    std::shared_ptr<LocalRealTimeCounter> counter = std::make_shared<LocalRealTimeCounter>();
    std::shared_ptr<SharedParameterHandler> params = std::make_shared<SharedParameterHandler>();
    std::shared_ptr<DecisionService> service;
    if (kase.count("window")) counter->setWindowSize(kase["window"].get<int>());
    try {
      joiner = std::make_shared<InMemoryLogJoiner>(kase.value("log", std::string()));
      std::shared_ptr<ConfigProvider> config;
      if (kase.count("config_dir"))
        config = std::make_shared<DiskConfigProvider>(kase["config_dir"].get<std::string>());
      else
        config = std::make_shared<ConfigProvider>();
      service = std::make_shared<DecisionService>(config, std::make_shared<SimScorer>(), joiner, counter, params);
      sim::Quiet q;
      event({{"ev", "service"}, {"ok", true}});
    } catch (const std::exception& e) {
      sim::Quiet q;
      event({{"ev", "service"}, {"ok", false}, {"err", e.what()}});
    }
    if (service) {
      auto server = std::make_shared<Server>(service, 3000);
      server->start();
      auto* http = &server->server_;
      std::vector<OpState> st;
      std::map<int, std::vector<int>> by;
      std::vector<int> ids;
      {
        sim::Quiet q;
        st.resize(kase["ops"].size());
        for (int i = 0; i < int(st.size()); i++) by[kase["ops"][i].value("c", 0)].push_back(i);
      }
      for (auto& b : by) {
        std::vector<int>* mine = &b.second;
        ids.push_back(sim::spawn("client" + std::to_string(b.first), [mine, &st, http, service, counter, joiner, params] {
          for (int i : *mine) {
            json op;
            std::string k;
            {
              sim::Quiet q;
              op = kase["ops"][i];
              k = op["k"].get<std::string>();
              event({{"ev", "call"}, {"i", i}});
            }
            json out = {{"ev", "return"}, {"i", i}};
            try {
              if (k == "http") {
                std::string body;
                std::string path;
                {
                  sim::Quiet q;
                  if (op.count("rid_from")) {
                    OpState* s = &st.at(op["rid_from"].get<int>());
                    sim::wait_until([s] { return s->done; });
                    op["body"]["request_id"] = s->rid;
                  }
                  body = op["body"].is_string() ? op["body"].get<std::string>() : op["body"].dump();
                  path = op["path"].get<std::string>();
                }
                std::function<void(std::shared_ptr<HttpServer::Response>, std::shared_ptr<HttpServer::Request>)> h;
                {
                  sim::Quiet q;
                  for (auto& r : http->resource)
                    if (std::regex_match(path, std::regex(r.first)) && r.second.count("POST")) h = r.second.at("POST");
                }
                auto rsp = std::make_shared<HttpServer::Response>();
                auto rq = std::make_shared<HttpServer::Request>();
                rq->content.s = body;
                if (h) h(rsp, rq);
                sim::Quiet q;
                out["code"] = h ? rsp->code : 404;
                out["writes"] = rsp->writes;
                out["body"] = rsp->body;
                json pj = json::parse(rsp->body, nullptr, false);
                if (rsp->code == 200 && pj.is_object() && pj.count("request_id")) st[i].rid = pj["request_id"].get<std::string>();
              } else if (k == "plan") {
                DecisionConfig c;
                std::string name;
                {
                  sim::Quiet q;
                  c = op["config"].get<DecisionConfig>();
                  name = op["name"].get<std::string>();
                }
                service->createPlan(name, c);
              } else if (k == "join") {
                StringList parts;
                {
                  sim::Quiet q;
                  for (auto& p : op["parts"]) parts.push_back(p.is_string() ? p.get<std::string>() : p.dump());
                }
                service->deserializeAndJoinDecisionAndFeedback(parts);
              } else if (k == "sleep") {
                sim::sleep_ms(op["ms"].get<int64_t>());
              } else if (k == "jump") {
                sim::jump_clock_ms(op["ms"].get<int64_t>());
              } else if (k == "add") {
                std::string key = op["key"].get<std::string>();
                counter->addValue(key, op["value"].get<double>());
              } else if (k == "read") {
                std::string key = op["key"].get<std::string>();
                int64_t n = counter->getNumSamples(key);
                double m = counter->getMean(key), v = counter->getVariance(key);
                sim::Quiet q;
                out["n"] = n;
                out["mean"] = m;
                out["var"] = v;
              } else if (k == "clear") {
                std::string key = op["key"].get<std::string>();
                counter->clear(key);
              } else if (k == "expectation") {
                auto op_ = std::dynamic_pointer_cast<Ucb>(service->getPlan(op["plan"].get<std::string>())->getOperators().at(op["at"].get<int>()));
                out["value"] = op_->getArmExpectation(op["arm"].get<std::string>());
              } else if (k == "shift") {
                auto op_ = std::dynamic_pointer_cast<PropensityFit>(service->getPlan(op["plan"].get<std::string>())->getOperators().at(op["at"].get<int>()));
                out["value"] = op_->getShift(op["action"].get<std::string>());
              } else if (k == "getparam") {
                std::string key = op["key"].get<std::string>();
                auto v = params->getValues(key);
                sim::Quiet q;
                out["values"] = v;
              } else if (k == "setparam") {
                std::string key = op["key"].get<std::string>();
                auto v = op["values"].get<StringDoubleMap>();
                params->updateParameter(key, v);
              } else if (k == "roundtrip") {
                json a = op["value"];
                ConstantValue v = a.get<ConstantValue>();
                json b;
                constant_value_to_json(v, b);
                sim::Quiet q;
                out["json"] = b;
              }
            } catch (const std::exception& e) {
              sim::Quiet q;
              out["err"] = e.what();
            }
            sim::Quiet q;
            st[i].done = true;
            event(out);
          }
        }));
      }
      for (int id : ids) sim::join(id);
      if (kase.value("drain_ms", 0) > 0) sim::sleep_ms(kase["drain_ms"].get<int>());
      {
        json fin = {{"ev", "final"}};
        auto logged = joiner->getLoggedData();
        json lg = json::array();
        for (auto& d : logged) {
          sim::Quiet q;
          lg.push_back(details(d));
        }
        json cs = json::object(), ps = json::object();
        if (kase.count("dump_counters"))
          for (auto& k : kase["dump_counters"]) {
            std::string key = k.get<std::string>();
            int64_t n = counter->getNumSamples(key);
            cs[key] = {{"n", n}, {"mean", n ? counter->getMean(key) : 0.0}, {"var", n ? counter->getVariance(key) : 0.0}};
          }
        if (kase.count("dump_params"))
          for (auto& k : kase["dump_params"]) {
            std::string key = k.get<std::string>();
            ps[key] = params->getValues(key);
          }
        sim::Quiet q;
        fin["logged"] = lg;
        fin["counters"] = cs;
        fin["params"] = ps;
        event(fin);
      }
      server->shutdown();
      server.reset();
      service.reset();
      joiner.reset();
    }
  }
  sim::end();
  result(json::object());
}

int main(int, char** argv) {
  // the same addresses in every run, where the sandbox lets us
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1 &&
      (personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    execv("/proc/self/exe", argv);
  OperatorFactory::getInstance()->registerOperatorConstructor("SimOp", mkSimOp);
  OperatorFactory::getInstance()->registerOperatorConstructor("SimRank", mkSimRank);
  OperatorFactory::getInstance()->registerOperatorConstructor("SimPass", mkSimPass);
  sim::on_fatal = [](const std::string& c, const std::string& m) {
    result({{"viol", {c, m}}, {"dead", true}});
    _exit(9);
  };
  std::string line;
  while (std::getline(std::cin, line)) {
    // a process per case: every case starts from the same state, and may die
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      kase = json::parse(line);
      run_case();
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      int sig = WTERMSIG(status);
      printf("{\"events\":[],\"dead\":true,\"viol\":[\"%s\",\"the process died by signal %d (%s)\"]}\n",
             sig == SIGALRM ? "hang" : "crash", sig, strsignal(sig));
      fflush(stdout);
    }
  }
  return 0;
}
