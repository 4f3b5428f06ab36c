----------------------------- MODULE DescriptionMC ---------------------------
(* All short sequences of additions of overlapping items.                    *)
EXTENDS Description, Json

CONSTANTS MaxAdds, DoEmit

VARIABLES adds

Init == items = <<>> /\ adds = <<>>
Names == {<<"", "a">>, <<"", "b">>, <<"", "a_b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "x">>}
How == {<<"", "", FALSE>>, <<"yes", "", FALSE>>, <<"", "", TRUE>>, <<"", "--a">>, <<"no", "a", TRUE>>,
        <<"", "a-b">>, <<"", "a_b">>}
Next == \E n \in Names, h \in How :
  LET m == Len(h) = 3 /\ h[3]
      i == Item(n[1], n[2], h[1], h[2], m)
  IN /\ Len(adds) < MaxAdds
     /\ Add(i) \/ Reject(i)
     /\ adds' = Append(adds, [group |-> n[1], sub |-> n[2], cl |-> h[1], arg |-> h[2], meta |-> m])

UniqueNames == \A i, j \in DOMAIN items : i # j => Full(items[i]) # Full(items[j])
NoOverlap == Groups \cap {Full(i) : i \in Rng(items)} = {}
UniqueArgs == \A i, j \in DOMAIN items :
  i # j /\ items[i].shown /\ items[j].shown => Dash(items[i].arg) # Dash(items[j].arg)
Kept == [][\A k \in DOMAIN items : items'[k] = items[k]]_<<items, adds>>
Emit == (DoEmit /\ Len(adds) = MaxAdds) => PrintT("@@" \o ToJson(adds))
==============================================================================
