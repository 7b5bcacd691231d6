// Fork server: boots the interpreter once, then runs every request in a forked
// child, so that cases are isolated from each other and crashes are contained.
//
// request : "<mode> <gc-period> <gc-seed> <timeout-ms> <cpu-s> <mem-mb> <ninput> <n>\n" <n bytes of program> <ninput bytes of stdin>
//   mode  : load  evaluate the whole text as a program; stop at the first uncaught error
//           each  evaluate every datum on its own; report a value or an error for each
//           read  only read every datum from the text and write it back
// response: "<status> <stdout-bytes> <stderr-bytes>\n" <stdout> <stderr>
//   status: "exit N" | "signal N" | "timeout 0"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <chrono>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include "verif_hook.hpp"

#include <meevax/kernel/boot.hpp>
#include <meevax/kernel/configuration.hpp>
#include <meevax/kernel/eof.hpp>
#include <meevax/kernel/error.hpp>
#include <meevax/kernel/input_string_port.hpp>
#include <meevax/kernel/interaction_environment.hpp>
#include <meevax/kernel/library.hpp>
#include <meevax/kernel/procedure.hpp>

using namespace meevax;
using namespace meevax::literals;

static auto program_environment() -> environment &
{
  return interaction_environment().as<environment>();
}

// An object whose creation and finalisation are watched.
struct token
{
  static inline std::uint64_t created = 0, finalised = 0, twice = 0;
  static inline std::map<long, int> alive {};

  long id;
  std::uint64_t magic = 0x746F6B656E;

  explicit token(long id) : id { id } { ++created; ++alive[id]; }

  token(token const&) = delete;

  ~token()
  {
    if (std::exchange(magic, 0) != 0x746F6B656E or --alive[id] != 0)
    {
      ++twice;
    }

    ++finalised;
    alive.erase(id);
  }
};

static auto operator <<(std::ostream & os, token const& datum) -> std::ostream &
{
  return os << "#,(token " << datum.id << ")";
}

static auto open_descriptors() -> long
{
  auto n = 0l;

  for (auto fd = 0; fd < 4096; ++fd)
  {
    n += ::fcntl(fd, F_GETFD) != -1;
  }

  return n;
}

static auto resident_kib() -> long
{
  long pages = 0, resident = 0;

  if (auto f = std::fopen("/proc/self/statm", "r"))
  {
    (void) !std::fscanf(f, "%ld %ld", &pages, &resident);
    std::fclose(f);
  }

  return resident * (::sysconf(_SC_PAGESIZE) / 1024);
}

static auto gc_report() -> void
{
  std::cout.flush();
  std::fflush(stdout);
  std::ostringstream os;
  os << "\n%%GC requests=" << verif_gc::requests << " forced=" << verif_gc::forced << " live=" << meevax::count() << "\n";
  auto s = os.str();
  (void) !::write(2, s.data(), s.size());
}

static auto run_child(std::string const& mode, std::string const& text) -> int
{
  auto & e = program_environment();

  try
  {
    if (mode == "load")
    {
      auto input = input_string_port(text);

      for (let x = input.read(); not x.is<eof>(); x = input.read())
      {
        e.evaluate(x);
      }

      return 0;
    }
    else if (mode == "each")
    {
      auto input = input_string_port(text);

      auto i = 0;

      while (true)
      {
        try
        {
          let x = input.read();

          if (x.is<eof>())
          {
            break;
          }

          ++i;

          let v = e.evaluate(x);
          std::ostringstream os;
          os << v;
          std::cout << "\n\x01" << i << " V " << os.str() << "\x02" << std::endl;
        }
        catch (read_error const& error)
        {
          std::cout << "\n\x01" << i << " R " << error.what() << "\x02" << std::endl;
          break;
        }
        catch (error const& error)
        {
          std::cout << "\n\x01" << i << " E " << error.what() << "\x02" << std::endl;
          for (auto & each : e.a) { each = nullptr; }
        }
        catch (std::exception const& exception)
        {
          std::cout << "\n\x01" << i << " X " << exception.what() << "\x02" << std::endl;
          for (auto & each : e.a) { each = nullptr; }
        }
      }

      return 0;
    }
    else if (mode == "read")
    {
      auto input = input_string_port(text);

      auto i = 0;

      while (true)
      {
        try
        {
          let x = input.read();

          if (x.is<eof>())
          {
            std::cout << "\n\x01" << i << " EOF\x02" << std::endl;
            break;
          }

          ++i;

          std::ostringstream os;
          os << x;
          std::cout << "\n\x01" << i << " V " << os.str() << "\x02" << std::endl;
        }
        catch (read_error const& error)
        {
          std::cout << "\n\x01" << i << " R " << error.what() << "\x02" << std::endl;
          break;
        }
        catch (error const& error)
        {
          std::cout << "\n\x01" << i << " E " << error.what() << "\x02" << std::endl;
          break;
        }
      }

      return 0;
    }
    else
    {
      return 99;
    }
  }
  catch (int const status)
  {
    return status & 0xFF;
  }
  catch (error const& error)
  {
    std::cout.flush();
    error.report(std::cerr);
    return 1;
  }
  catch (std::exception const& exception)
  {
    std::cout.flush();
    std::cerr << "; std::exception: " << exception.what() << std::endl;
    return 2;
  }
  catch (...)
  {
    std::cout.flush();
    std::cerr << "; foreign C++ exception escaped" << std::endl;
    return 3;
  }
}

static auto read_exactly(std::string & s, std::size_t n) -> bool
{
  s.resize(n);
  return n == 0 or std::fread(s.data(), 1, n, stdin) == n;
}

int main(int argc, char ** argv)
{
  std::signal(SIGPIPE, SIG_IGN);

  try
  {
    boot();

    auto & e = program_environment();

    e.load_scheme_libraries();

    e.define(make_symbol("%gc"),       make<procedure>("%gc",       [](let const&) -> object { collect(); return unspecified; }));
    e.define(make_symbol("%live"),     make<procedure>("%live",     [](let const&) -> object { return make<small_integer>(static_cast<small_integer>(meevax::count())); }));
    e.define(make_symbol("%allocated"),make<procedure>("%allocated",[](let const&) -> object { return make<double>(static_cast<double>(verif_gc::bytes)); }));
    e.define(make_symbol("%fds"),      make<procedure>("%fds",      [](let const&) -> object { return make<small_integer>(static_cast<small_integer>(open_descriptors())); }));
    e.define(make_symbol("%rss"),      make<procedure>("%rss",      [](let const&) -> object { return make<small_integer>(static_cast<small_integer>(resident_kib())); }));
    e.define(make_symbol("%token"),    make<procedure>("%token",    [](let const& xs) -> object { return make<token>(static_cast<long>(car(xs).as<small_integer>())); }));
    e.define(make_symbol("%token-id"), make<procedure>("%token-id", [](let const& xs) -> object { return make<small_integer>(static_cast<small_integer>(car(xs).as<token>().id)); }));
    e.define(make_symbol("%tokens"),   make<procedure>("%tokens",   [](let const&) -> object
    {
      let xs = unit;
      for (auto i = token::alive.rbegin(); i != token::alive.rend(); ++i)
      {
        xs = cons(make<small_integer>(static_cast<small_integer>(i->first)), xs);
      }
      return xs;
    }));
    e.define(make_symbol("%finalised-twice"), make<procedure>("%finalised-twice", [](let const&) -> object { return make<small_integer>(static_cast<small_integer>(token::twice)); }));

    for (auto i = 1; i < argc; ++i)
    {
      std::ifstream file { argv[i] };
      std::stringstream ss; ss << file.rdbuf();
      auto input = input_string_port(ss.str());
      for (let x = input.read(); not x.is<eof>(); x = input.read())
      {
        e.evaluate(x);
      }
    }

    collect();
  }
  catch (error const& error)
  {
    std::printf("boot-failed\n");
    std::fflush(stdout);
    error.report(std::cerr);
    return 70;
  }

  std::printf("ready\n");
  std::fflush(stdout);

  char mode[16];
  unsigned long long period, seed; long timeout_ms, cpu_s, mem_mb; std::size_t ninput, n;

  while (std::scanf("%15s %llu %llu %ld %ld %ld %zu %zu", mode, &period, &seed, &timeout_ms, &cpu_s, &mem_mb, &ninput, &n) == 8)
  {
    std::string text, input;

    if (std::getchar() != '\n' or not read_exactly(text, n) or not read_exactly(input, ninput))
    {
      return 71;
    }

    int out[2], err[2];

    if (::pipe2(out, O_CLOEXEC) or ::pipe2(err, O_CLOEXEC))
    {
      return 72;
    }

    std::FILE * in = nullptr;
    int in_fd = ::open("/dev/null", O_RDONLY);

    if (ninput)
    {
      ::close(in_fd);
      in_fd = ::memfd_create("stdin", 0);
      (void) !::write(in_fd, input.data(), input.size());
      ::lseek(in_fd, 0, SEEK_SET);
    }

    auto const pid = ::fork();

    if (pid == 0)
    {
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      ::setpgid(0, 0);
      ::dup2(in_fd, 0);
      ::dup2(out[1], 1);
      ::dup2(err[1], 2);

      if (cpu_s > 0)
      {
        struct rlimit r { (rlim_t) cpu_s, (rlim_t) cpu_s + 1 };
        ::setrlimit(RLIMIT_CPU, &r);
      }

      if (mem_mb > 0)
      {
        struct rlimit r { (rlim_t) mem_mb << 20, (rlim_t) mem_mb << 20 };
        ::setrlimit(RLIMIT_AS, &r);
      }

      struct rlimit core { 0, 0 };
      ::setrlimit(RLIMIT_CORE, &core);

      verif_gc::requests = verif_gc::forced = verif_gc::bytes = 0;
      verif_gc::rng = seed;
      verif_gc::period = period;

      auto const status = run_child(mode, text);

      verif_gc::period = 0;

      gc_report();
      std::cerr.flush();
      ::_exit(status);
    }

    ::close(out[1]);
    ::close(err[1]);
    ::close(in_fd);

    std::string so, se;
    auto const deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
    bool timed_out = false, o_open = true, e_open = true;
    char buffer[65536];
    constexpr std::size_t cap = 64u << 20;

    while (o_open or e_open)
    {
      auto left = std::chrono::duration_cast<std::chrono::milliseconds>(deadline - std::chrono::steady_clock::now()).count();

      if (left <= 0)
      {
        timed_out = true;
        break;
      }

      pollfd fds[2] = { { o_open ? out[0] : -1, POLLIN, 0 }, { e_open ? err[0] : -1, POLLIN, 0 } };

      if (::poll(fds, 2, (int) left) <= 0)
      {
        continue;
      }

      if (fds[0].revents)
      {
        auto k = ::read(out[0], buffer, sizeof buffer);
        if (k <= 0) { o_open = false; } else if (so.size() < cap) { so.append(buffer, k); } else { timed_out = true; break; }
      }

      if (fds[1].revents)
      {
        auto k = ::read(err[0], buffer, sizeof buffer);
        if (k <= 0) { e_open = false; } else if (se.size() < cap) { se.append(buffer, k); } else { timed_out = true; break; }
      }
    }

    ::kill(-pid, SIGKILL);
    if (timed_out) { ::kill(pid, SIGKILL); }

    int status = 0;
    ::waitpid(pid, &status, 0);
    ::close(out[0]);
    ::close(err[0]);

    if (timed_out) { std::printf("timeout 0"); }
    else if (WIFEXITED(status)) { std::printf("exit %d", WEXITSTATUS(status)); }
    else { std::printf("signal %d", WTERMSIG(status)); }

    std::printf(" %zu %zu\n", so.size(), se.size());
    std::fwrite(so.data(), 1, so.size(), stdout);
    std::fwrite(se.data(), 1, se.size(), stdout);
    std::fflush(stdout);
  }

  ::_exit(0);
}
