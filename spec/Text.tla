-------------------------------- MODULE Text --------------------------------
(* What the stream operators write: monomials, integers, polynomials, wraps. *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

RECURSIVE IntsText(_, _)
IntsText(s, k) == IF k > Len(s) THEN "" ELSE (IF k > 1 THEN " " ELSE "") \o ToString(s[k]) \o IntsText(s, k + 1)
(* <<pos, e1, ..., en>>: the component only when there is one *)
MonoText(m) == "[" \o (IF m[1] >= 0 THEN ToString(m[1]) \o ":" ELSE "") \o IntsText(Tail(m), 1) \o "]"

(* <<sign, d0, ..., dk>>, digits base 10^4 from the lowest *)
Pad4(d) == (IF d < 10 THEN "000" ELSE IF d < 100 THEN "00" ELSE IF d < 1000 THEN "0" ELSE "") \o ToString(d)
RECURSIVE LowText(_, _)
LowText(b, k) == IF k < 2 THEN "" ELSE Pad4(b[k]) \o LowText(b, k - 1)
BigText(b) == IF b[1] = 0 THEN "0"
              ELSE (IF b[1] < 0 THEN "-" ELSE "") \o ToString(b[Len(b)]) \o LowText(b, Len(b) - 1)

(* a sequence of <<monomial, coefficient>> in the order of the polynomial *)
RECURSIVE TermsText(_, _)
TermsText(ts, k) == IF k > Len(ts) THEN ""
                    ELSE (IF k > 1 THEN " + " ELSE "") \o MonoText(ts[k][1]) \o "*" \o BigText(ts[k][2]) \o TermsText(ts, k + 1)
PolyText(ts) == IF ts = <<>> THEN "0" ELSE TermsText(ts, 1)

RECURSIVE FlagsText(_, _)
FlagsText(nm, k) == IF k > Len(nm) THEN "" ELSE (IF nm[k] = 1 THEN "*" ELSE " ") \o FlagsText(nm, k + 1)
WrapText(lm, anc, nm) == MonoText(lm) \o MonoText(anc) \o "[" \o FlagsText(nm, 1) \o "]"
=============================================================================
