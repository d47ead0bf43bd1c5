/-  File names and include guards of different modules differ (C17).
    Module names consist of lower-case letters, digits and '-' (grammar rule NameLower). -/

def inName (c : Char) : Bool := (97 ≤ c.toNat && c.toNat ≤ 122) || (48 ≤ c.toNat && c.toNat ≤ 57) || c == '-'

/-- asn1_to_c_style_naming, character by character -/
def cChar (c : Char) : Char := if c = '-' then '_' else c

/-- generate_cfs_circular_import_guard, character by character: '-' and '.' to '_', then upper case -/
def guardChar (c : Char) : Char := (if c = '-' then '_' else if c = '.' then '_' else c).toUpper

theorem map_inj (f : Char → Char) (P : Char → Bool) (hf : ∀ a b, P a → P b → f a = f b → a = b) :
    ∀ x y : List Char, (∀ c ∈ x, P c) → (∀ c ∈ y, P c) → x.map f = y.map f → x = y := by
  intro x
  induction x with
  | nil => intro y _ _ h; cases y <;> simp_all
  | cons a x ih =>
    intro y hx hy h
    cases y with
    | nil => simp at h
    | cons b y =>
      simp only [List.map_cons, List.cons.injEq] at h
      have e1 := hf a b (hx a (by simp)) (hy b (by simp)) h.1
      have e2 := ih y (fun c hc => hx c (by simp [hc])) (fun c hc => hy c (by simp [hc])) h.2
      rw [e1, e2]

theorem name_chars (c : Char) (h : inName c) : ∃ n : Fin 128, c = Char.ofNat n.val ∧ inName (Char.ofNat n.val) := by
  have hb : c.toNat < 128 := by
    simp only [inName, Bool.or_eq_true, Bool.and_eq_true, decide_eq_true_eq, beq_iff_eq] at h
    rcases h with (h | h) | h
    · omega
    · omega
    · rw [h]; decide
  refine ⟨⟨c.toNat, hb⟩, ?_⟩
  have : Char.ofNat c.toNat = c := Char.ofNat_toNat c
  simp only [this]
  exact ⟨trivial, h⟩

theorem cChar_inj_fin : ∀ a b : Fin 128, inName (Char.ofNat a.val) → inName (Char.ofNat b.val) →
    cChar (Char.ofNat a.val) = cChar (Char.ofNat b.val) → Char.ofNat a.val = Char.ofNat b.val := by
  decide +kernel

theorem guardChar_inj_fin : ∀ a b : Fin 128, inName (Char.ofNat a.val) → inName (Char.ofNat b.val) →
    guardChar (Char.ofNat a.val) = guardChar (Char.ofNat b.val) → Char.ofNat a.val = Char.ofNat b.val := by
  decide +kernel

theorem lift_inj (f : Char → Char) (h : ∀ a b : Fin 128, inName (Char.ofNat a.val) → inName (Char.ofNat b.val) →
    f (Char.ofNat a.val) = f (Char.ofNat b.val) → Char.ofNat a.val = Char.ofNat b.val) :
    ∀ a b, inName a → inName b → f a = f b → a = b := by
  intro a b ha hb e
  obtain ⟨i, ei, hi⟩ := name_chars a ha
  obtain ⟨j, ej, hj⟩ := name_chars b hb
  rw [ei, ej] at e ⊢
  exact h i j hi hj e

/-- the files of one kind (same suffix) of two modules have one name only if the modules have one name -/
theorem file_names_differ (x y suffix : List Char) (hx : ∀ c ∈ x, inName c) (hy : ∀ c ∈ y, inName c)
    (h : x.map cChar ++ suffix = y.map cChar ++ suffix) : x = y :=
  map_inj cChar inName (lift_inj cChar cChar_inj_fin) x y hx hy (List.append_cancel_right h)

/-- the same for the include guards -/
theorem guards_differ (x y pre suffix : List Char) (hx : ∀ c ∈ x, inName c) (hy : ∀ c ∈ y, inName c)
    (h : pre ++ (x.map guardChar ++ suffix) = pre ++ (y.map guardChar ++ suffix)) : x = y :=
  map_inj guardChar inName (lift_inj guardChar guardChar_inj_fin) x y hx hy (List.append_cancel_right (List.append_cancel_left h))

#print axioms file_names_differ
#print axioms guards_differ
