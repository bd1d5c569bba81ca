// Replays behaviours of Collector.tla on the real heap (src/heap/heap.cpp) with a small client.
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include "avian/common.h"
#include <avian/system/system.h>
#include <avian/heap/heap.h>
using namespace vm;

// word 0: flags (a null class reference), word 1: id << 8 | shape << 3, then the slots, then the saved hash
const uintptr_t Fixed = 1, Hashed = 2, Extended = 4;
struct Shape { char c; unsigned slots; };
const Shape shapes[] = {{'T', 2}, {'S', 5}, {'M', 67}, {'L', 600}, {'F', 3}, {'G', 1032}, {'Z', 0}};
const unsigned Min = 4;
static uintptr_t& word(void* o, unsigned i) { return static_cast<uintptr_t*>(o)[i]; }
static uintptr_t flags(void* o) { return word(o, 0) & 7; }
static const Shape& shapeOf(void* o) { return shapes[(word(o, 1) >> 3) & 7]; }
static unsigned idOf(void* o) { return word(o, 1) >> 8; }
static unsigned base(void* o) { return std::max(Min, 2 + shapeOf(o).slots); }

struct Driver : Heap::Client {
  System* system;
  Heap* heap;
  void* root[16];
  std::map<unsigned, void*> weak;      // every object ever made that is not known to be dead
  std::map<unsigned, uintptr_t> hash;  // id -> hash
  std::vector<std::pair<uintptr_t*, unsigned> > chunks;
  unsigned footprint;
  std::string problem;

  Driver() : footprint(0) { memset(root, 0, sizeof root); }
  void fail(const std::string& s) { if (problem.empty()) problem = s; }

  virtual void collect(void*, Heap::CollectionType) {}
  virtual void visitRoots(Heap::Visitor* v)
  {
    for (int i = 0; i < 16; ++i) v->visit(root + i);
    heap->postVisit();
    std::map<unsigned, void*> next;
    for (auto& e : weak) {
      if (heap->status(e.second) == Heap::Unreachable) continue;
      v->visit(&e.second);
      next.insert(e);
    }
    weak.swap(next);
  }
  virtual bool isFixed(void* o) { return flags(o) & Fixed; }
  virtual unsigned sizeInWords(void* o)
  {
    unsigned n = base(heap->follow(maskAlignedPointer(o)));
    return n + ((flags(heap->follow(maskAlignedPointer(o))) & Extended) ? 1 : 0);
  }
  virtual unsigned copiedSizeInWords(void* o)
  {
    return base(o) + ((flags(o) & (Extended | Hashed)) ? 1 : 0);
  }
  virtual void copy(void* o, void* dst)
  {
    unsigned n = base(o) + ((flags(o) & Extended) ? 1 : 0);
    memcpy(dst, o, n * BytesPerWord);
    if ((flags(o) & Hashed) and not(flags(o) & Extended)) {
      word(dst, base(o)) = reinterpret_cast<uintptr_t>(o) >> 3;
      word(dst, 0) = (word(dst, 0) & ~Hashed) | Extended;
    }
  }
  virtual void walk(void* o, Heap::Walker* w)
  {
    void* p = heap->follow(maskAlignedPointer(o));
    unsigned n = shapeOf(p).slots;
    if (not w->visit(0)) return;
    for (unsigned i = 0; i < n; ++i) if (not w->visit(2 + i)) return;
  }

  uintptr_t hashOf(void* o)
  {
    if (flags(o) & Extended) return word(o, base(o));
    return reinterpret_cast<uintptr_t>(o) >> 3;
  }

  void* make(unsigned id, char c)
  {
    unsigned s = 0;
    while (shapes[s].c != c) ++s;
    unsigned n = std::max(Min, 2 + shapes[s].slots);
    void* p;
    bool fixed = c == 'F' or c == 'G';
    if (fixed) {
      p = heap->allocateFixed(heap, n, true);
    } else {
      p = heap->allocate(n * BytesPerWord);
      chunks.push_back(std::make_pair(static_cast<uintptr_t*>(p), n));
      footprint += n;
    }
    memset(p, 0, n * BytesPerWord);
    word(p, 0) = fixed ? Fixed : 0;
    word(p, 1) = id << 8 | s << 3;
    weak[id] = p;
    return p;
  }

  void gc(bool major)
  {
    heap->collect(major ? Heap::MajorCollection : Heap::MinorCollection, footprint, 0);
    footprint = 0;
    for (auto& c : chunks) {
      memset(c.first, 0xA5, c.second * BytesPerWord);
      heap->free(c.first, c.second * BytesPerWord);
    }
    chunks.clear();
  }

  void* find(unsigned id)
  {
    if (id == 0) return 0;
    std::map<unsigned, void*>::iterator it = weak.find(id);
    if (it == weak.end()) { fail("object " + std::to_string(id) + " lost"); return 0; }
    if (idOf(it->second) != id) { fail("object " + std::to_string(id) + " damaged"); return 0; }
    return it->second;
  }

  std::string dump()
  {
    std::map<unsigned, void*> seen;
    std::vector<void*> todo;
    for (int i = 0; i < 16; ++i) if (root[i]) todo.push_back(root[i]);
    while (todo.size()) {
      void* o = todo.back();
      todo.pop_back();
      unsigned id = idOf(o);
      if (id == 0 or id > 1000 or word(o, 0) > 7 or ((word(o, 1) >> 3) & 7) > 6) return "damaged object";
      if (seen.count(id)) { if (seen[id] != o) return "two copies of " + std::to_string(id); continue; }
      seen[id] = o;
      if (weak.find(id) == weak.end() or weak[id] != o) return "stale pointer to " + std::to_string(id);
      if (hash.count(id) and hashOf(o) != hash[id]) return "hash of " + std::to_string(id) + " changed";
      for (unsigned i = 0; i < shapeOf(o).slots; ++i) {
        void* q = maskAlignedPointer(reinterpret_cast<void*>(word(o, 2 + i)));
        if (q) todo.push_back(q);
      }
    }
    std::ostringstream s;
    s << "[";
    bool first = true;
    for (auto& e : seen) {
      s << (first ? "[" : ",[") << e.first << "," << shapeOf(e.second).c;
      first = false;
      for (unsigned i = 0; i < shapeOf(e.second).slots; ++i) {
        void* q = reinterpret_cast<void*>(word(e.second, 2 + i));
        if (q) s << "," << i << "," << idOf(q);
      }
      s << "]";
    }
    s << "]";
    return s.str();
  }

  std::string op(std::istringstream& l)
  {
    std::string o;
    l >> o;
    if (o == "new") {
      int r, id; char c;
      l >> r >> c >> id;
      root[r] = make(id, c);
    } else if (o == "store") {
      unsigned a, i, x;
      l >> a >> i >> x;
      void* p = find(a); void* q = find(x);
      if (problem.empty()) {
        word(p, 2 + i) = reinterpret_cast<uintptr_t>(q);
        if (x % 3 == 0 and i > 0) heap->mark(p, 2 + i - 1, 2);  // as arraycopy does for a range
        else heap->mark(p, 2 + i, 1);
      }
    } else if (o == "root") {
      unsigned r, x;
      l >> r >> x;
      root[r] = find(x);
    } else if (o == "hash") {
      unsigned x;
      l >> x;
      void* p = find(x);
      if (p) {
        hash[x] = hashOf(p);
        if (not(flags(p) & (Extended | Hashed | Fixed))) { word(p, 0) |= Hashed; heap->pad(p); }
      }
    } else if (o == "gc") {
      int major;
      std::string live;
      l >> major >> live;
      gc(major);
      for (char& c : live) if (c == '[' or c == ']' or c == ',') c = ' ';
      std::istringstream ls(live);
      std::set<unsigned> want;
      unsigned x;
      while (ls >> x) want.insert(x);
      for (unsigned x : want) if (not weak.count(x)) return "lost " + std::to_string(x);
      if (major or heap->collectionType() == Heap::MajorCollection)
        for (auto& e : weak) if (not want.count(e.first)) return "kept " + std::to_string(e.first);
      return problem.empty() ? "ok" : problem;
    } else if (o == "dump") {
      std::string d = dump();
      return problem.empty() ? d : problem;
    }
    return problem.empty() ? "0" : problem;
  }
};

int main(int, char** argv)
{
  std::ifstream in(argv[1]);
  std::string line;
  while (std::getline(in, line)) {
    unsigned limit = atoi(line.c_str());
    System* system = makeSystem();
    Heap* heap = makeHeap(system, limit);
    Driver d;
    d.system = system;
    d.heap = heap;
    heap->setClient(&d);
    d.gc(true);
    d.gc(true);
    unsigned before = heap->remaining();
    while (std::getline(in, line) and line != ".") {
      std::istringstream l(line);
      std::cout << d.op(l) << ";" << std::flush;
    }
    // everything dropped: all memory must come back
    memset(d.root, 0, sizeof d.root);
    d.gc(true);
    d.gc(true);
    if (d.weak.size()) std::cout << "kept at the end: " << d.weak.begin()->first << ";";
    heap->disposeFixies();
    if (int(before - heap->remaining()) > 64) std::cout << "not returned: " << int(before - heap->remaining()) << ";";
    heap->dispose();
    std::cout << "\n" << std::flush;
    system->dispose();
  }
  return 0;
}
extern "C" void vmJump(void*, void*, void*, void*, uintptr_t, uintptr_t) { abort(); }
