// What a sequence of writer calls should produce: a document, or an error at the first call out of order.
#pragma once
#include "doc.h"
struct Frame { Node n; bool map; bool haskey = false; std::string key; };
struct Model {
  std::vector<Frame> st; std::optional<Node> root; bool bad = false;
  void val(Node v) {
    if (bad) return;
    if (st.empty()) { if (root) bad = true; else root = std::move(v); return; }
    Frame &f = st.back();
    if (!f.map) { f.n.c.push_back(std::move(v)); return; }
    if (!f.haskey) { bad = true; return; }
    put(f.n, f.key, std::move(v)); f.haskey = false;
  }
  void open(bool map) { if (bad) return; if (st.empty() ? (bool)root : (st.back().map && !st.back().haskey)) { bad = true; return; } Frame f; f.n = map ? nMap() : nArr(); f.map = map; st.push_back(std::move(f)); }
  void close(bool map) { if (bad) return; if (st.empty() || st.back().map != map || st.back().haskey) { bad = true; return; } Node n = std::move(st.back().n); st.pop_back(); val(std::move(n)); }
  void key(std::string k) { if (bad) return; if (st.empty() || !st.back().map || st.back().haskey || k.size() > 65535) { bad = true; return; } st.back().haskey = true; st.back().key = std::move(k); }
};
