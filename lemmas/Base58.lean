/-
The lemmas about base conversion that the proofs of engine/seqs.py and engine/lib.py use as axioms.
Sequences are lists of natural numbers (byte values, or positions in the alphabet); `conv b c s` is the change of base that
keeps leading zeros: Base58 encoding is `conv 256 58` followed by the alphabet, decoding is its inverse then `conv 58 256`.
-/
namespace B58

/-- digits of v, most significant first; none for 0 -/
def digits (b : Nat) (v : Nat) : List Nat :=
  if _h : v = 0 ∨ b < 2 then [] else digits b (v / b) ++ [v % b]
termination_by v
decreasing_by
  apply Nat.div_lt_self <;> omega

/-- value of the first i elements -/
def horner (b : Nat) (s : List Nat) : Nat → Nat
  | 0 => 0
  | i + 1 => horner b s i * b + s.getD i 0

/-- value of the last i elements -/
def tail (b : Nat) (s : List Nat) : Nat → Nat
  | 0 => 0
  | i + 1 => tail b s i + b ^ i * s.getD (s.length - 1 - i) 0

/-- leading zeros among the first i elements -/
def lead (s : List Nat) : Nat → Nat
  | 0 => 0
  | i + 1 => if lead s i = i ∧ s.getD i 0 = 0 then lead s i + 1 else lead s i

/-- every one of the first i elements satisfies p -/
def okpre (p : Nat → Bool) (s : List Nat) : Nat → Bool
  | 0 => true
  | i + 1 => okpre p s i && p (s.getD i 0)

def value (b : Nat) (s : List Nat) : Nat := horner b s s.length

def conv (b c : Nat) (s : List Nat) : List Nat :=
  List.replicate (lead s s.length) 0 ++ digits c (value b s)

/-! ### definitions as the solver gets them -/

theorem digits_zero (b) : digits b 0 = [] := by
  unfold digits; simp

theorem digits_pos {b v} (hb : 2 ≤ b) (hv : 0 < v) : digits b v = digits b (v / b) ++ [v % b] := by
  conv => lhs; unfold digits
  have : ¬ (v = 0 ∨ b < 2) := by omega
  simp [this]

theorem digits_small {b v} (h : v < b) : digits b (v / b) = [] ∧ v % b = v := by
  rw [Nat.div_eq_of_lt h, Nat.mod_eq_of_lt h]
  exact ⟨digits_zero b, rfl⟩

theorem power_step (b i : Nat) (hb : 1 ≤ b) : 1 ≤ b ^ i ∧ b ^ (i + 1) = b * b ^ i :=
  ⟨Nat.one_le_pow _ _ hb, by rw [Nat.pow_succ, Nat.mul_comm]⟩

theorem lead_bounds (s : List Nat) (i : Nat) : lead s i ≤ i := by
  induction i with
  | zero => simp [lead]
  | succ i ih => simp only [lead]; split <;> omega

theorem lead_stops (s : List Nat) (i n : Nat) (h : i < n) (hz : ¬ (lead s i = i ∧ s.getD i 0 = 0)) :
    lead s n = lead s i := by
  induction n with
  | zero => omega
  | succ n ih =>
    by_cases hn : i = n
    · subst hn; simp only [lead, if_neg hz]
    · have hi : lead s n = lead s i := ih (by omega)
      have hl : lead s i ≤ i := lead_bounds s i
      have : ¬ (lead s n = n ∧ s.getD n 0 = 0) := by omega
      rw [lead, if_neg this, hi]

theorem ok_prefix (p : Nat → Bool) (s : List Nat) (n i : Nat) (h : okpre p s n = true) (hi : i ≤ n) :
    okpre p s i = true := by
  induction n with
  | zero => have : i = 0 := by omega
            subst this; exact h
  | succ n ih =>
    by_cases e : i = n + 1
    · subst e; exact h
    · rw [okpre, Bool.and_eq_true] at h
      exact ih h.1 (by omega)

theorem ok_all (p : Nat → Bool) (s : List Nat) (n i : Nat) (h : okpre p s n = true) (hi : i < n) :
    p (s.getD i 0) = true := by
  have := ok_prefix p s n (i + 1) h (by omega)
  simp only [okpre, Bool.and_eq_true] at this
  exact this.2

/-! ### the two values of a sequence agree -/

theorem horner_cons (b x : Nat) (s : List Nat) (i : Nat) :
    horner b (x :: s) (i + 1) = x * b ^ i + horner b s i := by
  induction i with
  | zero => simp [horner]
  | succ i ih =>
    rw [horner, ih, horner, Nat.add_mul, Nat.pow_succ, Nat.mul_assoc]
    simp [Nat.add_assoc]

theorem tail_cons (b x : Nat) (s : List Nat) (i : Nat) (h : i ≤ s.length) : tail b (x :: s) i = tail b s i := by
  induction i with
  | zero => rfl
  | succ i ih =>
    rw [tail, tail, ih (by omega)]
    have : (x :: s).length - 1 - i = (s.length - 1 - i) + 1 := by simp; omega
    rw [this]; simp

/-- lemma value-of-tail -/
theorem value_of_tail (b : Nat) (s : List Nat) : tail b s s.length = horner b s s.length := by
  induction s with
  | nil => rfl
  | cons x s ih =>
    rw [List.length_cons, tail, tail_cons b x s _ (Nat.le_refl _), ih, horner_cons]
    simp [Nat.mul_comm, Nat.add_comm]

/-! ### change of base -/

theorem value_nil (b) : value b [] = 0 := rfl

theorem value_cons (b x s) : value b (x :: s) = x * b ^ s.length + value b s := horner_cons b x s s.length

theorem value_append (b s t) : value b (s ++ t) = value b s * b ^ t.length + value b t := by
  induction s with
  | nil => simp [value_nil]
  | cons x s ih =>
    rw [List.cons_append, value_cons, ih, value_cons, Nat.add_mul, List.length_append, Nat.pow_add, Nat.mul_assoc,
      Nat.add_assoc]

theorem value_single (b x) : value b [x] = x := by simp [value, horner]

theorem value_zeros (b k) : value b (List.replicate k 0) = 0 := by
  induction k with
  | zero => rfl
  | succ k ih => rw [List.replicate_succ, value_cons, ih]; simp

theorem value_digits {b : Nat} (hb : 2 ≤ b) (v : Nat) : value b (digits b v) = v := by
  induction v using Nat.strongRecOn with
  | ind v ih =>
    by_cases hv : v = 0
    · subst hv; rw [digits_zero]; rfl
    · rw [digits_pos hb (by omega), value_append, ih (v / b) (Nat.div_lt_self (by omega) (by omega)), value_single]
      simp [Nat.div_add_mod']

theorem digits_lt {b : Nat} (hb : 2 ≤ b) (v : Nat) : ∀ x ∈ digits b v, x < b := by
  induction v using Nat.strongRecOn with
  | ind v ih =>
    by_cases hv : v = 0
    · subst hv; simp [digits_zero]
    · rw [digits_pos hb (by omega)]
      intro x hx
      rcases List.mem_append.1 hx with h | h
      · exact ih (v / b) (Nat.div_lt_self (by omega) (by omega)) x h
      · simp at h; subst h; exact Nat.mod_lt _ (by omega)

/-- the digits of a positive number begin with a digit that is not zero -/
theorem digits_head {b : Nat} (hb : 2 ≤ b) (v : Nat) (hv : 0 < v) : ∃ x l, digits b v = x :: l ∧ x ≠ 0 := by
  induction v using Nat.strongRecOn with
  | ind v ih =>
    rw [digits_pos hb hv]
    by_cases hq : v / b = 0
    · refine ⟨v % b, [], ?_, ?_⟩
      · rw [hq, digits_zero]; rfl
      · have : v < b := by
          rcases Nat.lt_or_ge v b with h | h
          · exact h
          · have := Nat.div_pos h (by omega); omega
        rw [Nat.mod_eq_of_lt this]; omega
    · obtain ⟨x, l, h, hx⟩ := ih (v / b) (Nat.div_lt_self hv (by omega)) (Nat.pos_of_ne_zero hq)
      exact ⟨x, l ++ [v % b], by rw [h]; rfl, hx⟩

/-- number of leading zeros, by structure -/
def zeros : List Nat → Nat
  | [] => 0
  | x :: s => if x = 0 then zeros s + 1 else 0

theorem lead_cons_zero (s : List Nat) (i : Nat) : lead (0 :: s) (i + 1) = lead s i + 1 := by
  induction i with
  | zero => simp [lead]
  | succ i ih =>
    rw [lead, ih, lead]
    simp only [List.getD_cons_succ]
    by_cases h : lead s i = i ∧ s.getD i 0 = 0
    · have : lead s i + 1 = i + 1 ∧ s.getD i 0 = 0 := by omega
      rw [if_pos h, if_pos this]
    · have : ¬ (lead s i + 1 = i + 1 ∧ s.getD i 0 = 0) := by omega
      simp only [if_neg h, if_neg this]

theorem lead_eq_zeros (s : List Nat) : lead s s.length = zeros s := by
  induction s with
  | nil => rfl
  | cons x s ih =>
    by_cases hx : x = 0
    · subst hx; simp [zeros, lead_cons_zero, ih]
    · have := lead_stops (x :: s) 0 (s.length + 1) (by omega) (by simp [hx])
      simp only [List.length_cons, this, zeros, if_neg hx, lead]

theorem zeros_append (k : Nat) (t : List Nat) : zeros (List.replicate k 0 ++ t) = k + zeros t := by
  induction k with
  | zero => simp
  | succ k ih => rw [List.replicate_succ, List.cons_append, zeros, if_pos rfl, ih]; omega

theorem zeros_digits {b : Nat} (hb : 2 ≤ b) (v : Nat) : zeros (digits b v) = 0 := by
  by_cases hv : v = 0
  · subst hv; rw [digits_zero]; rfl
  · obtain ⟨x, l, h, hx⟩ := digits_head hb v (by omega)
    rw [h, zeros, if_neg hx]

/-- lemma strip: a sequence is its leading zeros and the rest -/
theorem split_zeros (s : List Nat) : ∃ r, s = List.replicate (lead s s.length) 0 ++ r ∧
    r.length = s.length - lead s s.length ∧ zeros r = 0 := by
  rw [lead_eq_zeros]
  induction s with
  | nil => exact ⟨[], by simp [zeros], by simp [zeros], rfl⟩
  | cons x s ih =>
    by_cases hx : x = 0
    · obtain ⟨r, h1, h2, h3⟩ := ih
      subst hx
      refine ⟨r, ?_, ?_, h3⟩
      · rw [zeros, if_pos rfl, List.replicate_succ, List.cons_append, ← h1]
      · rw [zeros, if_pos rfl]; simp; omega
    · exact ⟨x :: s, by simp [zeros, hx], by simp [zeros, hx], by simp [zeros, hx]⟩

theorem value_lt {b : Nat} (s : List Nat) (h : ∀ x ∈ s, x < b) : value b s < b ^ s.length := by
  induction s with
  | nil => simp [value_nil]
  | cons x s ih =>
    rw [value_cons, List.length_cons, Nat.pow_succ]
    have h1 : value b s < b ^ s.length := ih (fun y hy => h y (by simp [hy]))
    have h2 : x < b := h x (by simp)
    calc x * b ^ s.length + value b s < x * b ^ s.length + b ^ s.length := by omega
      _ = (x + 1) * b ^ s.length := by rw [Nat.add_mul, Nat.one_mul]
      _ ≤ b * b ^ s.length := Nat.mul_le_mul_right _ h2
      _ = b ^ s.length * b := Nat.mul_comm _ _

theorem digits_append {b : Nat} (hb : 2 ≤ b) (v x : Nat) (hx : x < b) (h : 0 < v ∨ 0 < x) :
    digits b (v * b + x) = digits b v ++ [x] := by
  have hp : 0 < v * b + x := by
    rcases h with h | h
    · have := Nat.mul_pos h (show 0 < b by omega); omega
    · omega
  rw [digits_pos hb hp]
  have h1 : (v * b + x) / b = v := by
    rw [Nat.add_comm, Nat.add_mul_div_right _ _ (by omega : 0 < b), Nat.div_eq_of_lt hx]; omega
  have h2 : (v * b + x) % b = x := by
    rw [Nat.add_comm, Nat.add_mul_mod_self_right, Nat.mod_eq_of_lt hx]
  rw [h1, h2]

/-- digits of the value of a sequence that does not begin with zero: the sequence -/
theorem digits_value_tight {b : Nat} (hb : 2 ≤ b) (r : List Nat) (hr : ∀ x ∈ r, x < b) (hz : zeros r = 0) :
    digits b (value b r) = r := by
  suffices H : ∀ n (r : List Nat), r.length = n → (∀ x ∈ r, x < b) → zeros r = 0 →
      digits b (value b r) = r ∧ (r ≠ [] → 0 < value b r) from (H r.length r rfl hr hz).1
  intro n
  induction n with
  | zero =>
    intro r hl _ _
    have : r = [] := List.eq_nil_of_length_eq_zero hl
    subst this; exact ⟨by rw [value_nil, digits_zero], by simp⟩
  | succ n ih =>
    intro r hl hlt hz
    have hne : r ≠ [] := by intro h; subst h; simp at hl
    obtain ⟨t, x, rfl⟩ : ∃ t x, r = t ++ [x] := ⟨r.dropLast, r.getLast hne, (List.dropLast_concat_getLast hne).symm⟩
    have hx : x < b := hlt x (by simp)
    have htl : t.length = n := by simp at hl; omega
    have htz : zeros t = 0 := by
      cases t with
      | nil => rfl
      | cons y t =>
        rw [List.cons_append, zeros] at hz
        rw [zeros]
        by_cases hy : y = 0
        · simp [hy] at hz
        · simp [hy]
    obtain ⟨i1, i2⟩ := ih t htl (fun y hy => hlt y (by simp [hy])) htz
    have hv : value b (t ++ [x]) = value b t * b + x := by rw [value_append, value_single]; simp
    have hpos : 0 < value b t ∨ 0 < x := by
      cases t with
      | nil =>
        right
        rw [List.nil_append, zeros] at hz
        by_cases hx0 : x = 0
        · simp [hx0] at hz
        · omega
      | cons y t => left; exact i2 (by simp)
    refine ⟨?_, fun _ => ?_⟩
    · rw [hv, digits_append hb _ _ hx hpos, i1]
    · rw [hv]
      rcases hpos with h | h
      · have := Nat.mul_pos h (show 0 < b by omega); omega
      · omega

theorem value_conv {b c : Nat} (hc : 2 ≤ c) (s : List Nat) : value c (conv b c s) = value b s := by
  unfold conv
  rw [value_append, value_zeros, value_digits hc]; simp

theorem zeros_conv {b c : Nat} (hc : 2 ≤ c) (s : List Nat) : zeros (conv b c s) = zeros s := by
  unfold conv
  rw [zeros_append, zeros_digits hc, lead_eq_zeros]; omega

theorem conv_lt {b c : Nat} (hc : 2 ≤ c) (s : List Nat) : ∀ x ∈ conv b c s, x < c := by
  intro x hx
  unfold conv at hx
  rcases List.mem_append.1 hx with h | h
  · have := (List.mem_replicate.1 h).2; omega
  · exact digits_lt hc _ x h

/-- the law of Base58: converting there and back is the identity -/
theorem conv_conv {b c : Nat} (hb : 2 ≤ b) (hc : 2 ≤ c) (s : List Nat) (hs : ∀ x ∈ s, x < b) :
    conv c b (conv b c s) = s := by
  have h1 : conv c b (conv b c s) = List.replicate (zeros s) 0 ++ digits b (value b s) := by
    show List.replicate (lead (conv b c s) (conv b c s).length) 0 ++ digits b (value c (conv b c s)) = _
    rw [value_conv hc, lead_eq_zeros, zeros_conv hc]
  obtain ⟨r, e, _, z⟩ := split_zeros s
  have hv : value b s = value b r := by
    rw [e, value_append, value_zeros]; simp
  have hr : ∀ x ∈ r, x < b := fun x hx => hs x (by rw [e]; exact List.mem_append.2 (Or.inr hx))
  rw [h1, hv, digits_value_tight hb r hr z]
  conv => rhs; rw [e]
  rw [lead_eq_zeros]

theorem conv_nil_iff {b c : Nat} (hb : 2 ≤ b) (hc : 2 ≤ c) (s : List Nat) (hs : ∀ x ∈ s, x < b) :
    conv b c s = [] ↔ s = [] := by
  constructor
  · intro h
    have := conv_conv hb hc s hs
    rw [h] at this
    rw [← this]; simp [conv, value_nil, digits_zero, lead]
  · intro h; subst h; simp [conv, value_nil, digits_zero, lead]

/-! ### with an alphabet -/

def bitcoin : List Nat :=
  "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".toList.map Char.toNat
def ripple : List Nat :=
  "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz".toList.map Char.toNat

def pos (A : List Nat) (c : Nat) : Nat := A.idxOf c
def char (A : List Nat) (i : Nat) : Nat := A.getD i 0
def valid (A t : List Nat) : Prop := ∀ c ∈ t, c ∈ A

structure Good (A : List Nat) : Prop where
  size : A.length = 58
  nodup : A.Nodup
  ascii : ∀ c ∈ A, c < 128

theorem good_bitcoin : Good bitcoin := ⟨by decide, by decide, by decide⟩
theorem good_ripple : Good ripple := ⟨by decide, by decide, by decide⟩

def enc (A s : List Nat) : List Nat := (conv 256 58 s).map (char A)
def dec (A t : List Nat) : List Nat := conv 58 256 (t.map (pos A))

theorem char_mem {A : List Nat} (g : Good A) {i : Nat} (h : i < 58) : char A i ∈ A := by
  unfold char
  rw [List.getD_eq_getElem?_getD, List.getElem?_eq_getElem (by rw [g.size]; exact h)]
  exact List.getElem_mem _

theorem pos_char {A : List Nat} (g : Good A) {i : Nat} (h : i < 58) : pos A (char A i) = i := by
  unfold pos char
  have hi : i < A.length := by rw [g.size]; exact h
  rw [List.getD_eq_getElem?_getD, List.getElem?_eq_getElem hi]
  exact g.nodup.idxOf_getElem i hi

theorem pos_lt {A : List Nat} (g : Good A) {c : Nat} (h : c ∈ A) : pos A c < 58 := by
  have := List.idxOf_lt_length_iff.2 h
  rw [g.size] at this; exact this

theorem char_pos {A : List Nat} (_ : Good A) {c : Nat} (h : c ∈ A) : char A (pos A c) = c := by
  unfold char pos
  have hi := List.idxOf_lt_length_iff.2 h
  rw [List.getD_eq_getElem?_getD, List.getElem?_eq_getElem hi]
  exact List.getElem_idxOf hi

/-- IS58(enc s) -/
theorem enc_valid {A : List Nat} (g : Good A) (s : List Nat) : valid A (enc A s) := by
  intro c hc
  obtain ⟨i, hi, rfl⟩ := List.mem_map.1 hc
  exact char_mem g (conv_lt (by omega) s i hi)

/-- every valid text is ASCII -/
theorem valid_ascii {A : List Nat} (g : Good A) (t : List Nat) (h : valid A t) : ∀ c ∈ t, c < 128 :=
  fun c hc => g.ascii c (h c hc)

/-- dec (enc s) = s -/
theorem dec_enc {A : List Nat} (g : Good A) (s : List Nat) (hs : ∀ x ∈ s, x < 256) : dec A (enc A s) = s := by
  unfold dec enc
  have : ((conv 256 58 s).map (char A)).map (pos A) = conv 256 58 s := by
    rw [List.map_map]
    conv => rhs; rw [← List.map_id (conv 256 58 s)]
    apply List.map_congr_left
    intro i hi
    exact pos_char g (conv_lt (by omega) s i hi)
  rw [this]
  exact conv_conv (by omega) (by omega) s hs

/-- enc (dec t) = t for text over the alphabet -/
theorem enc_dec {A : List Nat} (g : Good A) (t : List Nat) (h : valid A t) : enc A (dec A t) = t := by
  unfold dec enc
  rw [conv_conv (by omega) (by omega)]
  · rw [List.map_map]
    conv => rhs; rw [← List.map_id t]
    apply List.map_congr_left
    intro c hc
    exact char_pos g (h c hc)
  · intro x hx
    obtain ⟨c, hc, rfl⟩ := List.mem_map.1 hx
    exact pos_lt g (h c hc)

/-- dec t consists of bytes -/
theorem dec_bytes (A t : List Nat) : ∀ x ∈ dec A t, x < 256 := conv_lt (by omega) _

/-- dec t = [] iff t = [] for text over the alphabet -/
theorem dec_nil {A : List Nat} (g : Good A) (t : List Nat) (h : valid A t) : dec A t = [] ↔ t = [] := by
  unfold dec
  rw [conv_nil_iff (by omega) (by omega)]
  · simp
  · intro x hx
    obtain ⟨c, hc, rfl⟩ := List.mem_map.1 hx
    exact pos_lt g (h c hc)

/-- enc s = "" iff s is empty -/
theorem enc_nil {A : List Nat} (s : List Nat) (hs : ∀ x ∈ s, x < 256) : enc A s = [] ↔ s = [] := by
  unfold enc
  rw [List.map_eq_nil_iff]
  exact conv_nil_iff (by omega) (by omega) s hs

/-! ### int.to_bytes of the least sufficient length: the digits in base 256 -/

/-- big-endian i2osp of a length -/
def i2osp (v : Nat) : Nat → List Nat
  | 0 => []
  | n + 1 => i2osp (v / 256) n ++ [v % 256]

theorem i2osp_digits (n v : Nat) (h1 : v < 256 ^ n) (h2 : n = 0 ∨ 256 ^ (n - 1) ≤ v) : i2osp v n = digits 256 v := by
  induction n generalizing v with
  | zero =>
    have : v = 0 := by simp at h1; exact h1
    subst this; rw [digits_zero]; rfl
  | succ n ih =>
    have hv : 256 ^ n ≤ v := by rcases h2 with h | h; omega; simpa using h
    have hp : 0 < v := by have := Nat.one_le_pow n 256 (by omega); omega
    rw [i2osp, digits_pos (by omega) hp, ih]
    · rw [Nat.pow_succ] at h1; exact Nat.div_lt_of_lt_mul (by rw [Nat.mul_comm]; exact h1)
    · cases n with
      | zero => left; rfl
      | succ n => right
                  rw [Nat.pow_succ] at hv
                  simp only [Nat.add_sub_cancel]
                  exact (Nat.le_div_iff_mul_le (by omega)).2 hv

end B58

/-! what rests on what: the check reads these lines -/
#print axioms B58.digits_zero
#print axioms B58.digits_pos
#print axioms B58.digits_small
#print axioms B58.power_step
#print axioms B58.lead_bounds
#print axioms B58.lead_stops
#print axioms B58.ok_prefix
#print axioms B58.ok_all
#print axioms B58.value_of_tail
#print axioms B58.split_zeros
#print axioms B58.i2osp_digits
#print axioms B58.good_bitcoin
#print axioms B58.good_ripple
#print axioms B58.enc_valid
#print axioms B58.valid_ascii
#print axioms B58.dec_enc
#print axioms B58.enc_dec
#print axioms B58.dec_bytes
#print axioms B58.dec_nil
#print axioms B58.enc_nil
