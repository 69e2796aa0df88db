/- The chain lemma used by the contracts of r2d_clip, r3d_clip, r2d_split and r3d_split: a finite
   partial injective successor map splits into chains, each from a start (nothing precedes it) to an
   end (nothing follows it), and cycles. O names the start of a node's chain, R decreases along every
   chain, F and G pair the starts with the ends. -/
import Mathlib.Data.Fintype.Card
import Mathlib.Logic.Relation
import Mathlib.Data.Set.Finite.Basic
import Mathlib.Data.Set.Card
open Relation
set_option linter.unusedSectionVars false

namespace Chain
variable {α : Type} [Finite α] {r : α → α → Prop}

/-- nodes reachable from u -/
def reach (r : α → α → Prop) (u : α) : Set α := {v | ReflTransGen r u v}

theorem acyclic (inj : ∀ a b c, r a c → r b c → a = b) {m u : α} (hs : ∀ a, ¬ r a m)
    (h : ReflTransGen r m u) : ¬ TransGen r u u := by
  induction h with
  | refl =>
    intro t
    obtain ⟨d, _, hd⟩ := TransGen.tail'_iff.mp t
    exact hs d hd
  | tail _ hbc ih =>
    intro t
    obtain ⟨d, hcd, hdc⟩ := TransGen.tail'_iff.mp t
    have := inj _ _ _ hdc hbc
    subst this
    exact ih (TransGen.head' hdc hcd)

theorem reach_lt {u v : α} (hac : ¬ TransGen r u u) (h : r u v) :
    (reach r v).ncard < (reach r u).ncard := by
  apply Set.ncard_lt_ncard _ (Set.toFinite _)
  refine ⟨fun x hx => ReflTransGen.head h hx, fun hsub => ?_⟩
  exact hac (TransGen.head' h (hsub (ReflTransGen.refl : ReflTransGen r u u)))

theorem reaches_end (inj : ∀ a b c, r a c → r b c → a = b) {m : α} (hs : ∀ a, ¬ r a m) :
    ∃ e, ReflTransGen r m e ∧ ∀ b, ¬ r e b := by
  suffices H : ∀ n u, (reach r u).ncard ≤ n → ReflTransGen r m u →
      ∃ e, ReflTransGen r u e ∧ ∀ b, ¬ r e b from H _ m le_rfl ReflTransGen.refl
  intro n
  induction n with
  | zero =>
    intro u hn _
    exfalso
    have : (reach r u).ncard ≠ 0 :=
      Set.ncard_ne_zero_of_mem (a := u) (ReflTransGen.refl : ReflTransGen r u u)
    omega
  | succ n ih =>
    intro u hn hmu
    by_cases hu : ∃ v, r u v
    · obtain ⟨v, hv⟩ := hu
      have hlt := reach_lt (acyclic inj hs hmu) hv
      obtain ⟨e, he, hend⟩ := ih v (by omega) (ReflTransGen.tail hmu hv)
      exact ⟨e, ReflTransGen.head hv he, hend⟩
    · exact ⟨u, ReflTransGen.refl, fun b hb => hu ⟨b, hb⟩⟩

theorem end_unique (fn : ∀ a b c, r a b → r a c → b = c) {m e e' : α}
    (h : ReflTransGen r m e) (he : ∀ b, ¬ r e b) (h' : ReflTransGen r m e') (he' : ∀ b, ¬ r e' b) :
    e = e' := by
  induction h using ReflTransGen.head_induction_on with
  | refl =>
    rcases ReflTransGen.cases_head h' with rfl | ⟨c, hc, _⟩
    · rfl
    · exact absurd hc (he c)
  | head hac _ ih =>
    rcases ReflTransGen.cases_head h' with rfl | ⟨c, hc, hce⟩
    · exact absurd hac (he' _)
    · have := fn _ _ _ hac hc
      subst this
      exact ih hce

theorem start_unique (inj : ∀ a b c, r a c → r b c → a = b) {m m' u : α}
    (h : ReflTransGen r m u) (hm : ∀ a, ¬ r a m) (h' : ReflTransGen r m' u) (hm' : ∀ a, ¬ r a m') :
    m = m' :=
  end_unique (r := Function.swap r) (fun a b c hb hc => inj b c a hb hc)
    (reflTransGen_swap.mpr h) hm (reflTransGen_swap.mpr h') hm'

/-- The chain lemma. -/
theorem chain (r : α → α → Prop) (fn : ∀ a b c, r a b → r a c → b = c)
    (inj : ∀ a b c, r a c → r b c → a = b) :
    ∃ (O : α → Option α) (R : α → ℕ) (F G : α → α),
      (∀ m, (∀ a, ¬ r a m) → O m = some m) ∧
      (∀ u v, r u v → O v = O u ∧ ((O u).isSome → R v < R u)) ∧
      (∀ e, (∀ b, ¬ r e b) → O e = some (G e)) ∧
      (∀ m, (∀ a, ¬ r a m) → (∀ b, ¬ r (F m) b) ∧ G (F m) = m) ∧
      (∀ e, (∀ b, ¬ r e b) → (∀ a, ¬ r a (G e)) ∧ F (G e) = e) := by
  classical
  let st : α → α → Prop := fun u m => ReflTransGen r m u ∧ ∀ a, ¬ r a m
  let en : α → α → Prop := fun u e => ReflTransGen r u e ∧ ∀ b, ¬ r e b
  have hF : ∀ m, (∀ a, ¬ r a m) → ∃ e, en m e := fun m hm => reaches_end inj hm
  have hG : ∀ e, (∀ b, ¬ r e b) → ∃ m, st e m := by
    intro e he
    obtain ⟨m, hm, hs⟩ := reaches_end (r := Function.swap r) (fun a b c ha hb => fn c a b ha hb) (m := e) he
    exact ⟨m, reflTransGen_swap.mp hm, hs⟩
  let F : α → α := fun m => if h : ∃ e, en m e then h.choose else m
  let G : α → α := fun e => if h : ∃ m, st e m then h.choose else e
  have Fs : ∀ m, (∃ e, en m e) → en m (F m) := by
    intro m h
    simp only [F, dif_pos h]
    exact h.choose_spec
  have Gs : ∀ e, (∃ m, st e m) → st e (G e) := by
    intro e h
    simp only [G, dif_pos h]
    exact h.choose_spec
  let O : α → Option α := fun u => if ∃ m, st u m then some (G u) else none
  have Oeq : ∀ u m, st u m → O u = some m := by
    intro u m h
    have h' : ∃ m, st u m := ⟨m, h⟩
    simp only [O, if_pos h']
    exact congrArg some (start_unique inj (Gs u h').1 (Gs u h').2 h.1 h.2)
  refine ⟨O, fun u => (reach r u).ncard, F, G, ?_, ?_, ?_, ?_, ?_⟩
  · intro m hm
    exact Oeq m m ⟨ReflTransGen.refl, hm⟩
  · intro u v huv
    by_cases h : ∃ m, st u m
    · obtain ⟨m, hm⟩ := h
      refine ⟨?_, fun _ => reach_lt (acyclic inj hm.2 hm.1) huv⟩
      rw [Oeq u m hm, Oeq v m ⟨ReflTransGen.tail hm.1 huv, hm.2⟩]
    · have h' : ¬ ∃ m, st v m := by
        rintro ⟨m, hm⟩
        rcases ReflTransGen.cases_tail hm.1 with rfl | ⟨c, hc, hcv⟩
        · exact hm.2 _ huv
        · have := inj _ _ _ hcv huv
          subst this
          exact h ⟨m, hc, hm.2⟩
      simp [O, if_neg h, if_neg h']
  · intro e he
    exact Oeq e _ (Gs e (hG e he))
  · intro m hm
    have f := Fs m (hF m hm)
    refine ⟨f.2, ?_⟩
    have g := Gs (F m) ⟨m, f.1, hm⟩
    exact start_unique inj g.1 g.2 f.1 hm
  · intro e he
    have g := Gs e (hG e he)
    refine ⟨g.2, ?_⟩
    have f := Fs (G e) (hF _ g.2)
    exact end_unique fn f.1 f.2 g.1 he

end Chain
#print axioms Chain.chain
