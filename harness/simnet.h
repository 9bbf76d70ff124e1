// In-memory TCP for code running on the fiber scheduler (vsched.h): the socket
// calls of the code under test are answered here, as Linux would over loopback,
// with short reads and writes, EINTR, timeouts, refused connections and
// connection loss at any byte decided by the scheduler's chooser.
#ifndef VERIF_SIMNET_H
#define VERIF_SIMNET_H
#include <stdint.h>
#include <string>
#include <vector>

namespace simnet {
struct options {
  bool shorts;        // reads and writes may be short
  int eintr;          // budget of interrupted calls
  int resets;         // budget of lost connections
  int connfail;       // budget of failing connects / accepts
  bool optfail;       // ... of setting a timeout on an accepted connection, too
  size_t cap;         // bytes a direction holds before a writer blocks
  options() : shorts(true), eintr(0), resets(0), connfail(0), optfail(false), cap(65536) {}
};
void reset(const options& o);        // before a run
int connections();                   // made so far
int last_connect();                  // id of the last connection this fiber made, 0: none
int last_accept();                   // id of the last connection this fiber accepted
int id_of_port(int eph);             // connection with that client port
int open_fds();                      // descriptors still open
int bad_closes();                    // closes of descriptors that were not open
int listeners(int port);             // live listening sockets on that port
// raw client for the driver itself: same network
extern void (*on_loss)(int conn);    // called when a connection is lost
// name service: address list (host order) of a name; false: failure
extern bool halted;                  // accept blocks for good (the end of a run)
extern int resolving_port;           // service the resolver is being asked about
extern bool (*resolver)(const char* host, std::vector<uint32_t>& out);
}
#endif
