#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <map>
#define protected public
#define private public
#include "trick/ExecutiveException.hh"
#include "trick/Executive.hh"
#include "trick/exec_proto.h"
#include "trick/exec_proto.hh"
#include "trick/MessagePublisher.hh"
#include "trick/MessageCout.hh"
#include "trick/SimObject.hh"
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/CommandLineArguments.hh"
#include "trick/GetTimeOfDayClock.hh"
#include "trick/TrickConstant.hh"
#include "trick/VariableServer.hh"
#undef protected
#undef private
static std::vector<std::string> LOG;
struct Obj : public Trick::SimObject {
    std::map<std::string,int> rc; double failAt; Trick::Executive *ex;
    Obj() : failAt(-1), ex(0) {}
    Trick::JobData *job(int thread, unsigned id, const char *cls, double cycle, const char *nm, const char *tag="", int phase=60000, double start=0, double stop=1e37) {
        return add_job(thread, id, cls, NULL, cycle, nm, tag, phase, start, stop);
    }
    virtual int call_function(Trick::JobData *j) {
        if (j->name.find("advance") != std::string::npos) return ex->advance_sim_time();
        std::ostringstream o; o << j->name << "@" << ex->get_time_tics(); LOG.push_back(o.str());
        size_t p = j->name.rfind('.'); std::string s = j->name.substr(p == std::string::npos ? 0 : p + 1);
        return rc.count(s) ? rc[s] : 0;
    }
    virtual double call_function_double(Trick::JobData *) { return 0; }
};
struct World {
    Trick::Executive ex; Trick::MessagePublisher mp; Trick::MemoryManager mm; Trick::CommandLineArguments cl; Trick::GetTimeOfDayClock clk; Trick::VariableServer vs;
    std::vector<Obj*> objs;
    World() {
        clk.set_global_clock();
        const char *c[] = {"automatic","random","environment","sensor","sensor_emitter","sensor_reflector","sensor_receiver","scheduled","effector","effector_emitter","effector_receiver","automatic_last","logging","data_record","system_checkpoint","system_advance_sim_time","system_moding","system_thread_sync"};
        for (unsigned i = 0; i < sizeof c / sizeof *c; i++) exec_add_scheduled_job_class(c[i]);
        exec_set_trap_sigfpe(0); exec_set_stack_trace(0);
        Obj *s = add(); s->job(0, 0, "system_advance_sim_time", 1, "advance");
    }
    Obj *add() { Obj *o = new Obj; o->ex = &ex; o->id = objs.size() + 1; objs.push_back(o); return o; }
    void reg() { for (size_t i = 0; i < objs.size(); i++) { std::ostringstream o; o << "o" << i; ex.add_sim_object(objs[i], o.str().c_str()); } }
    int run(double end) { ex.set_terminate_time(end); reg(); int r = ex.init(); if (r == 0) ex.loop(); return ex.shutdown(); }
};
static void done(bool ok) { for (size_t i = 0; i < LOG.size(); i++) printf("%s ", LOG[i].c_str()); printf(ok ? "\nok\n" : "\nWRONG\n"); fflush(stdout); _exit(ok ? 0 : 1); }
