-------------------------------- MODULE Media -------------------------------
(* C17: refractive index of a medium at a vacuum wavelength (metres).         *)
(*   [k: "const", p: <<n>>]           [k: "table", w: wavelengths, n: indices] *)
(*   [k: "sellmeier", p: B1 B2 B3 C1 C2 C3]  [k: "sumita", p: A0 .. A5]        *)
(*   [k: "air", p: pressure/kPa, temperature/K, vapour pressure/kPa]           *)
EXTENDS Dec
Last2(s) == s[Len(s)]
Between(w, j, lam) == DLe(w[j], lam) /\ DLe(lam, w[j + 1])
Linear(x0, y0, x1, y1, x) == DAdd(y0, DDiv(DMul(DSub(x, x0), DSub(y1, y0)), DSub(x1, x0)))
TableIndex(w, n, lam) ==
  IF ~DIsFin(lam) \/ DLt(lam, w[1]) \/ DLt(Last2(w), lam) THEN "nan"
  ELSE LET j == CHOOSE q \in 1..(Len(w) - 1) : Between(w, q, lam) IN Linear(w[j], n[j], w[j + 1], n[j + 1], lam)
Micron2(lam) == DMul(DMul(lam, lam), "1e12")
SellmeierIndex(p, lam) ==
  LET x == Micron2(lam) term(j) == DDiv(DMul(p[j], x), DSub(x, p[j + 3])) IN
  DSqrt(DAdd(1, DSumSeq(<<term(1), term(2), term(3)>>)))
SumitaIndex(p, lam) ==
  LET x == Micron2(lam) IN
  DSqrt(DSumSeq(<<p[1], DMul(p[2], x), DDiv(p[3], x), DDiv(p[4], DPowI(x, 2)), DDiv(p[5], DPowI(x, 3)), DDiv(p[6], DPowI(x, 4))>>))
(* Filippenko (1982): pressures in mmHg, temperature in degrees C, wavenumber in 1/micron *)
AirIndex(p, lam) ==
  LET P == DMul(p[1], "7.50061683") T == DSub(p[2], "273.15") F == DMul(p[3], "7.50061683")
      s2 == DDiv(1, Micron2(lam))
      standard == DSumSeq(<<"64.328", DDiv("29498.1", DSub(146, s2)), DDiv("255.4", DSub(41, s2))>>)
      warm == DAdd(1, DMul("0.003661", T))
      dry == DDiv(DMul(DMul(standard, P), DAdd(1, DMul(DMul(DSub("1.049", DMul("0.0157", T)), "1e-6"), P))), DMul("720.883", warm))
      wet == DMul(DDiv(DSub("0.0624", DMul("0.000680", s2)), warm), F)
  IN  DAdd(1, DMul(DSub(dry, wet), "1e-6"))
Index(m, lam) == CASE m.k = "const" -> m.p[1] [] m.k = "table" -> TableIndex(m.w, m.n, lam)
                   [] m.k = "sellmeier" -> SellmeierIndex(m.p, lam) [] m.k = "sumita" -> SumitaIndex(m.p, lam) [] OTHER -> AirIndex(m.p, lam)
=============================================================================
