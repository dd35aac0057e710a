/* P04: a console executes each line that was terminated, once, in order, with its arguments, however its bytes arrive; and all that it says comes out. */
#include "sb.h"
#include "sink.h"
#include "Console/C3PConsole.h"
using namespace sim;

namespace {
enum {  F_ALLOC, F_TIGHT, F_REFUSE, F_OVERLONG  };
enum {  P_EXEC, P_CHUNKED_LINE, P_MANY_LINES, P_RESIDUE, P_BACKSPACE, P_BACKSPACE_INSIDE, P_UNKNOWN, P_SHORT_ARGS, P_CB_FAIL, P_SHORTCUT, P_TERM_CHANGE, P_HISTORY, P_HELD_OUTPUT, P_ECHO, P_OVERLONG, P_NO_MEMORY, P_SHADOWED, P_TABLE  };

struct Def {  const char* name;  char sc;  uint8_t req;  };
const Def DEFS[] = {{"go", 'g', 0}, {"stop", 's', 0}, {"set", 'S', 2}, {"get", 'G', 1}, {"goto", 0, 1}, {"x", 'y', 0}, {"y", 'z', 0}, {"conf", 'c', 0}, {"help", '?', 0}, {"GO", 'q', 3}};
enum {  N_DEF = 10, CONF = 7, HELP = 8  };
const uint16_t MAX = 96;
const char WS[] = " \t\r\n\v\f";

std::string trim(const std::string& s) {
  size_t a = s.find_first_not_of(WS);
  if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(WS) - a + 1);
}
std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> t;
  std::string cur;
  for (char ch : s) {
    if (ch != ' ') cur += ch;
    else if (!cur.empty()) {  t.push_back(cur);  cur.clear();  }
  }
  if (!cur.empty()) t.push_back(cur);
  return t;
}
std::string text(StringBuilder* s) {
  std::string r;
  for (int i = 0, n = s->count(); i < n; i++) {
    int len = -1;
    uint8_t* p = s->position(i, &len);
    if (len > 0) r.append((const char*) p, len);
  }
  return r;
}

struct Run;
Run* G = nullptr;
template <int N> int entry(StringBuilder* log, StringBuilder* args);
const consoleCallback CB[N_DEF] = {entry<0>, entry<1>, entry<2>, entry<3>, entry<4>, entry<5>, entry<6>, entry<7>, entry<8>, entry<9>};

struct Run {
  Ctx& c;
  ParsingConsole* con = nullptr;
  Sink sink;
  bool attached = true, lossy = false, healed = false;
  // The model.
  std::string pend, out;              // What is not yet a line; all that should have been said.
  bool echo = false, prompt = false, help_fail = false, hist_fail = false, prompted = false;
  uint32_t depth = 8;
  LineTerm term = LineTerm::LF;  bool zero = false;
  std::vector<std::string> hist;
  struct Call {  int def;  std::vector<std::string> args;  };
  std::vector<Call> expect;           // To be executed by the push in progress.
  size_t at = 0;                      // How many of those were.
  uint32_t calls = 0;
  Run(Ctx& x) : c(x) {}

  void arm() {  if (c.chance(1, 3)) {  g_malloc_fail_in = c.draw(12);  g_malloc_fail_sticky = c.chance(1, 3);  }  }
  void disarm() {
    if (g_malloc_failed > 0) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
  }
  static int find(const std::string& s) {
    for (int i = 0; i < N_DEF; i++) if (0 == strcasecmp(DEFS[i].name, s.c_str())) return i;
    if (s.size() == 1) for (int i = 0; i < N_DEF; i++) if (DEFS[i].sc == s[0]) return i;
    return -1;
  }
  static ConsoleCommand def(int i) {  return ConsoleCommand(DEFS[i].name, DEFS[i].sc, "does it", "<how>", DEFS[i].req, CB[i]);  }
  std::string detailed(int i) {  StringBuilder s;  def(i).printDetailedHelp(&s);  return text(&s);  }

  /* The console calls. */
  int called(int d, StringBuilder* log, StringBuilder* args) {
    std::vector<std::string> a;
    for (int i = 0, n = args->count(); i < n; i++) a.push_back(std::string(args->position_trimmed(i)));
    std::string shown = DEFS[d].name;
    for (auto& x : a) shown += " [" + x + "]";
    c.ev("executed %s", sb::show(shown).c_str());
    calls++;
    c.probe(P_EXEC);
    c.nontrivial();
    // The push in progress is modelled up to here.
    if (lossy) {
      while (at < expect.size() && (expect[at].def != d || expect[at].args != a)) at++;
      if (at == expect.size()) c.fail("console-exec", "%s was executed without memory, and was not entered", sb::show(shown).c_str());
      else at++;
      return 0;
    }
    if (c.failed()) return 0;
    if (!want) {  c.fail("console-exec", "%s was executed, and nothing should have been", sb::show(shown).c_str());  return 0;  }
    if (want_call.def != d) {  c.fail("console-exec", "%s was executed rather than %s", DEFS[d].name, DEFS[want_call.def].name);  return 0;  }
    if (want_call.args != a) {  c.fail("console-args", "%s was executed with other arguments than it was given", sb::show(shown).c_str());  return 0;  }
    want = false;
    // What was entered after this line is not to be known of yet; what came before was dealt with.
    int ret = 0;
    StringBuilder said;
    if (d == CONF && !a.empty()) {
      ret = con->console_handler_conf(&said, args);
      conf(a);
    }
    else if (d == HELP) ret = con->console_handler_help(&said, args);
    else {
      said.concatf("%s:%u\n", DEFS[d].name, calls);
      if (c.chance(1, 4)) {  con->printHistory(&said);  history(text(&said));  }
      if (c.chance(1, 5)) {  ret = -1;  c.probe(P_CB_FAIL);  }
    }
    out += "\n" + text(&said);
    log->concatHandoff(&said);
    if (ret != 0 && help_fail) out += detailed(d);
    remember();
    resume();
    return ret;
  }
  void history(const std::string& s) {
    std::string e;
    for (size_t i = 0; i < hist.size(); i++) e += "\t" + std::to_string(i) + ":  " + hist[i] + "\n";
    size_t p = s.find("\n", s.find("==="));
    if (p == std::string::npos || s.substr(p + 1) != e) c.fail("console-history", "the history is [%s] rather than [%s]", sb::show(p == std::string::npos ? s : s.substr(p + 1)).c_str(), sb::show(e).c_str());
    c.probe(P_HISTORY);
  }
  static int as_int(const std::vector<std::string>& a, size_t i) {  return i < a.size() ? atoi(a[i].c_str()) : 0;  }
  void conf(const std::vector<std::string>& a) {
    bool two = a.size() > 1, on = as_int(a, 1) != 0;
    if (a[0] == "echo") {  if (two) echo = on;  }
    else if (a[0] == "prompt") {  if (two) prompt = on;  }
    else if (a[0] == "help-on-fail") {  if (two) help_fail = on;  }
    else if (a[0] == "rxterm") {  if (two && as_int(a, 1) >= 0 && as_int(a, 1) < 4) {  term = (LineTerm) as_int(a, 1);  c.probe(P_TERM_CHANGE);  }  }
    else if (a[0] == "history" && two) {
      if (a[1] == "clear") hist.clear();
      else if (a[1] == "depth" && a.size() > 2) {  depth = as_int(a, 2);  cull();  }
      else if (a[1] == "logerrors" && a.size() > 2) hist_fail = as_int(a, 2) != 0;
    }
  }
  void cull() {  while (hist.size() > depth) hist.erase(hist.begin());  }

  /* The model runs ahead to the next call, and waits for it to be made. */
  bool want = false;  Call want_call;  std::string want_line;
  std::string fresh;  size_t fresh_at = 0;         // The push in progress.
  std::string delim() {  return term == LineTerm::CR ? "\r" : term == LineTerm::LF ? "\n" : term == LineTerm::CRLF ? "\r\n" : std::string(1, 0);  }
  void remember() {  hist.push_back(want_line);  cull();  prompt_now();  }
  void prompt_now() {  if (prompt && prompted) out += "\n> ";  }
  void line(const std::string& l) {
    std::string t = trim(l);
    if (t.empty()) return;
    std::vector<std::string> tok = tokens(t);
    std::string cmd = trim(tok[0]);
    int d = find(cmd);
    tok.erase(tok.begin());
    bool ok = false;
    if (d < 0) {
      out += "Command '" + cmd + "' not supported.\n";
      c.probe(P_UNKNOWN);
    }
    else if (tok.size() < DEFS[d].req) {
      char b[128];
      snprintf(b, sizeof b, "Command '%s' requires %d arguments. Only %d provided.\n", DEFS[d].name, DEFS[d].req, (int) tok.size());
      out += b + detailed(d);
      c.probe(P_SHORT_ARGS);
    }
    else {
      if (strcasecmp(DEFS[d].name, cmd.c_str())) c.probe(P_SHORTCUT);
      for (int i = 0; i < d; i++) if (DEFS[i].sc && cmd.size() == 1 && DEFS[i].sc == cmd[0]) c.probe(P_SHADOWED);
      want = true;
      want_line = t;
      want_call.def = d;
      want_call.args.clear();
      for (auto& x : tok) want_call.args.push_back(trim(x));
      ok = true;
    }
    if (!ok) {
      if (hist_fail) {  hist.push_back(t);  cull();  }
      prompt_now();
    }
  }
  void resume() {
    while (!want) {
      // A terminator may have become one since the bytes were taken.
      std::string d = delim();
      size_t p = pend.find(d);
      if (p != std::string::npos) {
        std::string l = pend.substr(0, p);
        pend.erase(0, p + d.size());
        line(l);
        continue;
      }
      if (fresh_at == fresh.size()) break;
      char ch = fresh[fresh_at++];
      if (ch == 8) {  if (!pend.empty()) pend.pop_back();  }
      else pend += ch;
    }
  }
  void push(const std::string& s) {
    c.step();
    bool over = s.find_first_of("\b\r\n") == std::string::npos && s.find((char) 0) == std::string::npos && pend.size() + s.size() > MAX;
    StringBuilder in;
    // It may arrive in several fragments.
    size_t cut = s.size() > 1 && c.chance(1, 4) ? 1 + c.draw(s.size() - 1) : s.size();
    in.concat((uint8_t*) s.data(), cut);
    if (cut < s.size()) in.concat((uint8_t*) s.data() + cut, s.size() - cut);
    c.ev("enter %s", sb::show(s).c_str());
    if (lossy) {
      // Which lines it is that are lost is not modelled.
      for (char ch : s) {
        if (ch == '\n') {
          std::string t = trim(pend);
          pend.clear();
          std::vector<std::string> tok = tokens(t);
          int d = tok.empty() ? -1 : find(trim(tok[0]));
          if (d >= 0 && tok.size() - 1 >= DEFS[d].req) {  Call k;  k.def = d;  for (size_t i = 1; i < tok.size(); i++) k.args.push_back(trim(tok[i]));  expect.push_back(k);  }
        }
        else pend += ch;
      }
      if (!healed) arm();
      con->pushBuffer(&in);
      disarm();
      return;
    }
    if (echo) {
      c.probe(P_ECHO);
      for (char ch : s) {  out += ch;  if (ch == 8) out += " \b";  }
    }
    if (s[0] == 8) c.probe(P_BACKSPACE);
    if (s.find('\b', 1) != std::string::npos || (s[0] == 8 && s.size() > 1)) c.probe(P_BACKSPACE_INSIDE);
    bool had = !pend.empty();
    uint32_t before = calls;
    fresh = s;  fresh_at = 0;
    if (over) {  pend.clear();  fresh.clear();  c.probe(P_OVERLONG);  c.fault(F_OVERLONG);  c.ev("which is too long");  }
    resume();
    int8_t rc = con->pushBuffer(&in);
    if (c.failed()) return;
    if (rc != 1) {  c.fail("console-code", "the console took all that was entered and returned %d", rc);  return;  }
    if (want) {  c.fail("console-exec", "%s was entered, and not executed", DEFS[want_call.def].name);  return;  }
    if (in.length()) {  c.fail("console-taken", "the console claims all of its input, and left %d bytes", in.length());  return;  }
    if (had && calls != before) c.probe(P_CHUNKED_LINE);
    if (calls - before > 1) c.probe(P_MANY_LINES);
    if (calls != before && !pend.empty()) c.probe(P_RESIDUE);
    settings();
    said();
    c.state(hash64(hash64(calls - before, pend.size() / 8), hash64((echo ? 1 : 0) | (prompt ? 2 : 0) | (hist_fail ? 4 : 0) | (int) term << 3, hist.size())));
  }
  void settings() {
    if (c.failed()) return;
    if (con->historyDepth() != hist.size()) c.fail("console-history", "the history has %u lines rather than %u", con->historyDepth(), (unsigned) hist.size());
    if (con->localEcho() != echo || con->emitPrompt() != prompt || con->printHelpOnFail() != help_fail || con->historyFail() != hist_fail || con->maxHistoryDepth() != depth || con->getRXTerminator() != term) c.fail("console-conf", "the settings are not what was set");
  }
  void said() {
    if (c.failed()) return;
    // What was said so far is a prefix of it all, and what is missing is held.
    if (sink.got.size() > out.size() || out.compare(0, sink.got.size(), sink.got)) {
      size_t i = 0;
      while (i < sink.got.size() && i < out.size() && sink.got[i] == out[i]) i++;
      c.fail("console-output", "what came out is wrong from byte %u: [%s] rather than [%s]", (unsigned) i, sb::show(sink.got.substr(i)).c_str(), sb::show(out.substr(i < out.size() ? i : out.size())).c_str());
      return;
    }
    size_t held = out.size() - sink.got.size();
    if (held) c.probe(P_HELD_OUTPUT);
    if ((uint8_t) held != con->logLength()) c.fail("console-output", "%u bytes of output are held, of which the console knows of %u", (unsigned) held, con->logLength());
  }
  void drain() {
    sink.refuse = sink.part = false;
    sink.room = 1 << 20;
    if (attached) con->printToLog(nullptr);
    else {  StringBuilder l;  con->fetchLog(&l);  sink.got += text(&l);  }
    if (!c.failed() && sink.got != out) {
      said();
      if (!c.failed()) c.fail("console-output", "%u bytes of output never came out", (unsigned) (out.size() - sink.got.size()));
    }
  }
  std::string word() {
    static const char* const W[] = {"go", "stop", "set", "get", "goto", "x", "y", "GO", "StOp", "SET", "g", "s", "S", "q", "z", "?", "bogus", "goo", "1", "42", "-7", "value", "0", "w", "help"};
    return W[c.draw(25)];
  }
  std::string a_line() {
    if (c.chance(1, 6)) {
      static const char* const K[] = {"conf echo 1", "conf echo 0", "conf prompt 1", "conf prompt 0", "conf history clear", "conf history depth 3", "conf history depth 0", "conf history logerrors 1", "conf help-on-fail 1", "conf history", "conf rxterm 1", "conf rxterm 2", "conf rxterm 3", "conf rxterm 0", "help", "help set", "conf rxterm 9", "conf nonsense"};
      // Away from a zero terminator, there would be zeros within lines.
      std::string k = K[c.draw(18)];
      if (zero && k.find("rxterm") != std::string::npos) k = "conf prompt 1";
      if (k == "conf rxterm 0") zero = true;
      return k;
    }
    std::string l;
    uint32_t n = c.draw(5);
    if (c.chance(1, 8)) l += " ";
    for (uint32_t i = 0; i < n; i++) {
      if (i) l += c.chance(1, 8) ? "  " : c.chance(1, 16) ? " \t" : " ";
      std::string w = word();
      if (c.chance(1, 10)) {
        // Mistyped, and corrected.
        std::string e(1 + c.draw(3), 'k');
        w += e + std::string(e.size(), '\b');
      }
      l += w;
    }
    if (c.chance(1, 8)) l += " ";
    if (c.chance(1, 12)) l = std::string(1 + c.draw(3), '\b') + l;
    return l;
  }
  void go() {
    lossy = c.chance(1, 5);
    attached = !lossy && c.chance(7, 8);
    con = new ParsingConsole(MAX);
    if (con->init() != 0) c.fail("console-init", "init() failed");
    // There are four ways to define a command.
    static const ConsoleCommand fixed[N_DEF] = {def(0), def(1), def(2), def(3), def(4), def(5), def(6), def(7), def(8), def(9)};
    for (int i = 0; i < N_DEF && !c.failed(); ) {
      int r = 0, k = 1;
      switch (c.draw(4)) {
        case 0: k = 1 + c.draw(N_DEF - i);  r = con->defineCommands(&fixed[i], k);  c.probe(P_TABLE);  break;
        case 1: r = con->defineCommand(&fixed[i]);  break;
        case 2: if (!DEFS[i].sc) {  r = con->defineCommand(DEFS[i].name, "does it", "<how>", DEFS[i].req, CB[i]);  break;  }  // fall through
        default: r = con->defineCommand(DEFS[i].name, DEFS[i].sc, "does it", "<how>", DEFS[i].req, CB[i]);  break;
      }
      if (r) c.fail("console-define", "definition of %s returned %d", DEFS[i].name, r);
      i += k;
    }
    if (!c.failed() && (con->defineCommand(nullptr) != -1 || con->defineCommands(nullptr, 3) != -1)) c.fail("console-define", "nothing was defined as a command");
    if (c.chance(1, 2)) {  con->setPromptString("> ");  prompted = true;  }
    if (attached) con->setEfferant(&sink);
    G = this;
    if (!lossy) {
      echo = c.chance(1, 4);         con->localEcho(echo);
      prompt = c.chance(1, 4);       con->emitPrompt(prompt);
      help_fail = c.chance(1, 4);    con->printHelpOnFail(help_fail);
      hist_fail = c.chance(1, 4);    con->historyFail(hist_fail);
      if (c.chance(1, 3)) {  depth = c.draw(6);  con->maxHistoryDepth(depth);  }
      if (c.chance(1, 3)) {  term = (LineTerm) c.draw(4);  con->setRXTerminator(term);  zero = term == LineTerm::ZEROBYTE;  }
    }
    std::string todo;                // Typed, and not yet arrived.
    c.plan_ops(8 + c.draw(50));
    while (c.next_op() && !c.failed()) {
      if (!lossy && attached && c.chance(1, 5)) {
        switch (c.draw(4)) {
          case 0: sink.refuse = !sink.refuse;  if (sink.refuse) c.fault(F_REFUSE);  break;
          case 1: sink.part = !sink.part;  if (sink.part) c.fault(F_TIGHT);  break;
          case 2: sink.room = c.draw(40);  c.fault(F_TIGHT);  break;
          case 3: sink.room = 1 << 20;  sink.refuse = false;  break;
        }
        c.ev("downstream: room for %d%s%s", sink.room, sink.refuse ? ", refuses" : "", sink.part ? ", takes part" : "");
      }
      switch (c.draw(lossy ? 4 : 8)) {
        case 0: case 1: case 2: case 3: {
          // Type something, and let some of it arrive.
          if (todo.size() < MAX) {
            std::string l = a_line();
            if (lossy) {  std::string k;  for (char ch : l) if (ch != 8) k += ch;  l = k.compare(0, 4, "conf") ? k : "go";  }
            todo += l + delim();
          }
          size_t room = MAX - pend.size();
          size_t n = c.chance(1, 3) ? 1 + c.draw(4) : 1 + c.draw(todo.size());
          if (n > room) n = room;
          if (n > todo.size()) n = todo.size();
          if (n == 0) break;
          std::string s = todo.substr(0, n);
          todo.erase(0, n);
          push(s);
          break;
        }
        case 4: {
          if (!c.chance(1, 3)) break;
          push(std::string(MAX + 1 - pend.size() + c.draw(40), 'a'));   // Nothing but too long.
          break;
        }
        case 5: {
          StringBuilder l;
          std::string t = "note " + std::to_string(c.draw(1000)) + "\n";
          l.concat((uint8_t*) t.data(), t.size());
          out += t;
          con->printToLog(&l);
          c.ev("the application says %s", t.c_str());
          said();
          break;
        }
        case 6: {
          if (prompted) {  con->printPrompt();  out += "> ";  said();  }
          break;
        }
        case 7: {
          StringBuilder h;
          con->printHistory(&h);
          history(text(&h));
          break;
        }
      }
    }
    c.begin_tail();
    if (lossy && !c.failed()) {
      // Memory is back.
      healed = true;
      push("\n");
      StringBuilder cmd("set 1 2\n");
      expect.clear();  at = 0;
      Call k;  k.def = 2;  k.args = {"1", "2"};
      expect.push_back(k);
      con->pushBuffer(&cmd);
      if (!c.failed() && at != 1) c.fail("console-recovery", "with memory to spare again, a command was not executed");
    }
    else if (!lossy && !c.failed()) drain();
    delete con;
    G = nullptr;
  }
};
template <int N> int entry(StringBuilder* log, StringBuilder* args) {  return G ? G->called(N, log, args) : 0;  }

void run(Ctx& c) {
  static char quiet[4096];
  if (freopen("/dev/null", "w", stdout)) setvbuf(stdout, quiet, _IOFBF, sizeof(quiet));
  size_t before = heap_in_use();
  {
    Run r(c);
    r.go();
  }
  if (!c.failed()) {
    size_t after = heap_in_use();
    if (after != before) c.fail("console-leak", "%d bytes remain after the console is gone", (int) (after - before));
  }
}
}

Harness g_harness = {
  "P04",
  "A history of typed lines (with corrections, settings, and over-long input) arriving at a console in any pieces, with a downstream of changing appetite; compared with a byte-wise model. Non-trivial: a command was executed.",
  run,
  {"allocation failure", "downstream takes part", "downstream refuses", "over-long input"},
  {"command executed", "line in several pieces", "several lines in a piece", "piece ends within a line", "backspace", "backspace within a piece", "unknown command", "too few arguments", "command failed", "shortcut", "terminator changed", "history read", "output held", "echo", "over-long input discarded", "memory refused", "shortcut shadowed", "commands defined as a table"},
  {"ParsingConsole", "C3PConsole", "ConsoleCommand", "StringBuilder", "LinkedList"},
  {"terminal", "downstream BufferAccepter", "commands", "allocator (failing)"},
  "lines executed x residue length x settings x history depth",
  {},
  20000, 400000
};
