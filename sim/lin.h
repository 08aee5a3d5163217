// Linearizability checker (Wing & Gong with memoisation) against small
// sequential reference models of the queues.
#pragma once
#include <stdint.h>
namespace lin {
enum Kind { ENQ, DEQ, DEQ_NONE, IS_EMPTY, SWAP };
enum Model { FIFO, DOUBLE };
struct Op {
    int kind;
    long val;  // value, or 0/1 for IS_EMPTY
    uint64_t inv, ret;
};
const int MAXOPS = 120;
enum Result { OK, BAD, UNKNOWN };
// cap 0 = unbounded.  end_empty: the final state must be an empty queue.
Result check(const Op* ops, int n, Model m, int cap, bool end_empty);
extern uint64_t nodes;  // search nodes of the last check
}  // namespace lin
