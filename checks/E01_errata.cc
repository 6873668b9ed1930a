// E01: Errata report the worst severity and keep every note.
#include "errata_util.h"

PROPERTY(history, 4, "annotations, a merge or move, and severities both raised and lowered")
{
  g.scaled();
  g.huge();
  configure(g);
  SINKING = false;
  struct Slot {
    std::unique_ptr<Errata> e;
    Model m;
  };
  std::vector<Slot> slots(3);
  for (auto &s : slots)
    s.e = make(g, s.m);
  for (auto &s : slots)
    check_state(*s.e, s.m, "construct");
  size_t n_bulk = g.bulk();
  for (size_t i = 0; i < n_bulk; ++i) { // start with a lot of notes
    slots[0].e->note("{}", i);
    slots[0].m.notes.push_back({std::to_string(i), 0, {}});
    slots[0].m.touched = true;
  }
  unsigned merges = 0, notes = 0, moves = 0;
  for (unsigned n = 0; g.more(18, n, n_bulk == 0 ? 120 : n_bulk < 3000 ? 20 : 3); ++n) {
    auto &s = slots[g.draw(slots.size() - 1)];
    auto &t = slots[g.draw(slots.size() - 1)];
    switch (g.weighted({40, 8, 6, 6, 8, 8, 5, 5, 4, 3})) {
    case 0:
      add_note(g, *s.e, s.m);
      ++notes;
      break;
    case 1: { // severity
      unsigned v = gen_sev(g);
      Errata &r  = s.e->update(Severity(v));
      s.m.update(v);
      REQ(&r == s.e.get(), "result of update");
      break;
    }
    case 2: {
      unsigned v = gen_sev(g);
      Errata &r  = s.e->assign(Severity(v));
      s.m.sev    = v;
      s.m.touched = true;
      REQ(&r == s.e.get(), "result of assign");
      break;
    }
    case 3: {
      auto ec = gen_code(g);
      s.e->assign(ec);
      s.m.code    = ec;
      s.m.touched = true;
      break;
    }
    case 4: // merge by copy
      if (s.m.notes.size() + t.m.notes.size() > 300 + 2 * n_bulk)
        break;
      merge(s.m, t.m);
      s.e->note(static_cast<Errata const &>(*t.e));
      ++merges;
      break;
    case 5: // merge and clear
      if (&s == &t || s.m.notes.size() + t.m.notes.size() > 300 + 2 * n_bulk)
        break;
      merge(s.m, t.m);
      t.m = Model{};
      s.e->note(std::move(*t.e));
      ++merges;
      check_state(*t.e, t.m, "merged from");
      break;
    case 6: { // move
      if (g.flip()) {
        auto *p = new Errata(std::move(*t.e));
        Model m = t.m;
        t.m     = Model{};
        check_state(*t.e, t.m, "moved from");
        s.e.reset(p);
        s.m = m;
      } else {
        *s.e = std::move(*t.e);
        if (&s != &t) {
          s.m = t.m;
          t.m = Model{};
        }
      }
      ++moves;
      check_state(*t.e, t.m, "moved");
      break;
    }
    case 7: // start again
      s.e = make(g, s.m);
      break;
    case 8:
      if (g.flip())
        s.e->clear();
      else
        s.e->sink();
      s.m = Model{};
      break;
    default: // severity of an annotation does not change that of the errata.
      if (!s.m.notes.empty()) {
        unsigned k = unsigned(g.draw(s.m.notes.size() - 1)), v = gen_sev(g), i = 0;
        for (auto &a : *s.e)
          if (i++ == k)
            a.assign(Severity(v));
        s.m.notes[k].sev = v;
      }
      break;
    }
    check_state(*s.e, s.m, "step ", n);
    if (&s != &t)
      check_state(*t.e, t.m, "step ", n, " of another");
  }
  g.label("merge", merges > 0);
  g.label("move", moves > 0);
  g.nontrivial(notes > 2 && merges + moves > 0);
  for (auto &s : slots)
    check_state(*s.e, s.m, "end");
}

PROPERTY(order, 1, "several severities, not in order")
{
  g.scaled();
  g.huge();
  // Severity does not depend on the order or route.
  configure(g);
  SINKING = false;
  std::vector<unsigned> v;
  for (unsigned n = 0; g.more(5, n, 20); ++n)
    v.push_back(gen_sev(g));
  unsigned worst = 0;
  for (auto s : v)
    worst = std::max(worst, s);
  g.nontrivial(v.size() > 2 && !std::is_sorted(v.begin(), v.end()));
  Errata e;
  for (auto s : v)
    switch (g.draw(4)) {
    case 0:
      e.note(Severity(s), "text");
      break;
    case 1:
      e.note(Severity(s), "text {}", s);
      break;
    case 2:
      e.note(Errata(Severity(s)));
      break;
    case 3:
      e.update(Severity(s));
      break;
    default: {
      Errata inner;
      inner.note(Severity(s), "text");
      e.note(std::move(inner));
      break;
    }
    }
  if (!v.empty()) {
    REQ_EQ(unsigned(e.severity()), worst, "severity");
    REQ_EQ(e.is_ok(), worst < FAILURE_S, "status");
  } else {
    REQ(e.is_ok(), "nothing happened");
  }
}

PROPERTY(deep, 1, "more than 255 levels")
{
  configure(g);
  SINKING = false;
  Model m;
  auto e = make_deep(g, m);
  check_state(*e, m, "deep");
}
