-------------------------------- MODULE Cred --------------------------------
(***************************************************************************)
(* Credentials: issued and revoked in a registry, chained to one another,  *)
(* presented with signatures over parts of them, and disclosed by degrees. *)
(*                                                                         *)
(* Content names what it refers to by the order in which it was made:      *)
(*   icp   an issuer            [keys, kt]                                 *)
(*   vcp   a registry           [by: its owner, says]                      *)
(*   cred  a credential         [by: issuer, reg, schema, form, to, says,  *)
(*                               edges, code, bad]                         *)
(*         form  "obj": what it says of its subject is there, "said": only *)
(*               the identifier of that is                                 *)
(*         to    0, or the issuer it is about                              *)
(*         edges [n, s]: the credentials it rests on, and their schemas    *)
(*         bad   "", or the part changed after its identifier was made:    *)
(*               "subject", "edges", "said" (the whole)                    *)
(*   iss, rev   said of a credential by a registry  [reg, cred, prior, says] *)
(* A path is a sequence of labels.  A credential is presented with groups  *)
(* [root, paths: [path, by, sigs: [key, index, over, part]]], over and part *)
(* being what was signed in truth.                                         *)
(***************************************************************************)
EXTENDS Back

NoContent == [t |-> "", by |-> 0, reg |-> 0, cred |-> 0, prior |-> 0, says |-> 0, schema |-> 0, form |-> "obj", to |-> 0, edges |-> << >>, code |-> "E", bad |-> "",
              keys |-> << >>, kt |-> << >>]
\* ------------------------------------------------- what is the same as what
\* said: what identifies it;  whole: all there is to it
Spoilt(c) == CASE c.bad = "subject" /\ c.form = "obj" -> "subject"
               [] c.bad = "edges" /\ c.edges # << >> -> "edges"
               [] c.bad = "said" -> "said"
               [] OTHER -> ""
SubjectOf(made, c) == <<IF c.to = 0 THEN << >> ELSE made[c.to].said, c.says + (IF c.bad = "said" THEN 1 ELSE 0)>>
NormOf(made, c, bad) ==
    CASE c.t = "icp" -> <<"icp", c.keys, c.kt>>
      [] c.t = "vcp" -> <<"vcp", made[c.by].said, c.says>>
      [] c.t = "iss" -> <<"iss", made[c.reg].said, made[c.cred].said, c.says>>
      [] c.t = "rev" -> <<"rev", made[c.reg].said, made[c.cred].said, made[c.prior].said, c.says>>
      [] c.t = "cred" -> <<"cred", c.code, made[c.by].said, made[c.reg].said, c.schema, c.form, IF c.to = 0 THEN << >> ELSE made[c.to].said, c.says,
                           Tup([i \in 1 .. Len(c.edges) |-> <<made[c.edges[i].n].said, c.edges[i].s>>]), bad>>
EnteredCred(made, c) == LET b == Spoilt(c) IN Append(made, c @@ [whole |-> NormOf(made, c, b), said |-> NormOf(made, c, IF b = "said" THEN "" ELSE b)])

\* what a path into it points at
Edge(i) == <<"e1", "e2", "e3", "e4">>[i]
PartOf(made, j, p) ==
    LET c == made[j] IN
    CASE p = << >> -> <<"whole", c.whole>>
      [] p = <<"d">> \/ (p = <<"1">> /\ c.t = "cred") -> <<"said", c.said>>
      [] p = <<"i">> /\ c.t \in {"iss", "rev"} -> <<"said", made[c.cred].said>>
      [] p = <<"p">> /\ c.t = "rev" -> <<"said", made[c.prior].said>>
      [] c.t = "cred" /\ \E i \in 1 .. Len(c.edges) : p = <<"e", Edge(i), "n">> -> <<"said", made[c.edges[CHOOSE i \in 1 .. Len(c.edges) : p = <<"e", Edge(i), "n">>].n].said>>
      [] OTHER -> <<"other">>

\* ------------------------------------------------------------ what is known
\* iss: issuers;  regs: registries;  tel: what they say of credentials;  creds: those accepted
NoCreds == [iss |-> << >>, regs |-> << >>, tel |-> << >>, creds |-> << >>]
Find(s, P(_)) == IF \E i \in 1 .. Len(s) : P(s[i]) THEN CHOOSE i \in 1 .. Len(s) : P(s[i]) /\ \A k \in 1 .. i - 1 : ~ P(s[k]) ELSE 0
IssuerAt(as, said) == Find(as.iss, LAMBDA x : x.said = said)
RegistryAt(as, said) == Find(as.regs, LAMBDA x : x.said = said)
ToldAt(as, reg, said) == Find(as.tel, LAMBDA x : x.reg = reg /\ x.cred = said)
CredAt(as, said) == Find(as.creds, LAMBDA x : x.said = said)
Issued(as, reg, said) == LET n == ToldAt(as, reg, said) IN n # 0 /\ as.tel[n].st = 1
RECURSIVE Stands(_, _)
Stands(as, said) == LET n == CredAt(as, said) IN
                    /\ n # 0
                    /\ Issued(as, as.creds[n].reg, said)
                    /\ \A i \in 1 .. Len(as.creds[n].nodes) : Stands(as, as.creds[n].nodes[i])
SignedBy(made, x, what, sigs, Says(_)) ==
    Quorum(x.kt, {sigs[i].index : i \in {k \in 1 .. Len(sigs) : sigs[k].index < Len(x.keys) /\ x.keys[sigs[k].index + 1] = sigs[k].key /\ Says(sigs[k]) = what}})

\* ----------------------------------------------- issuers, registries, status
AdmitsTold(as, made, j, sigs) ==
    LET c == made[j]
        By(n) == n # 0 /\ SignedBy(made, as.iss[n], <<"whole", c.whole>>, sigs, LAMBDA s : <<"whole", made[s.over].whole>>)
        r == RegistryAt(as, IF c.reg = 0 THEN << >> ELSE made[c.reg].said)
        n == ToldAt(as, made[c.reg].said, made[c.cred].said)
    IN CASE c.t = "icp" -> /\ IssuerAt(as, c.said) = 0 /\ c.keys # << >> /\ ThrFits(c.kt, Len(c.keys))
                           /\ SignedBy(made, [keys |-> c.keys, kt |-> c.kt], <<"whole", c.whole>>, sigs, LAMBDA s : <<"whole", made[s.over].whole>>)
         [] c.t = "vcp" -> RegistryAt(as, c.said) = 0 /\ By(IssuerAt(as, made[c.by].said))
         [] c.t = "iss" -> r # 0 /\ n = 0 /\ By(IssuerAt(as, as.regs[r].owner))
         [] c.t = "rev" -> r # 0 /\ n # 0 /\ as.tel[n].st = 1 /\ as.tel[n].last = made[c.prior].said /\ By(IssuerAt(as, as.regs[r].owner))
         [] OTHER -> FALSE
AdmittedTold(as, made, j) ==
    LET c == made[j] IN
    CASE c.t = "icp" -> [as EXCEPT !.iss = Append(@, [said |-> c.said, keys |-> c.keys, kt |-> c.kt])]
      [] c.t = "vcp" -> [as EXCEPT !.regs = Append(@, [said |-> c.said, owner |-> made[c.by].said])]
      [] c.t = "iss" -> [as EXCEPT !.tel = Append(@, [reg |-> made[c.reg].said, cred |-> made[c.cred].said, st |-> 1, last |-> c.said])]
      [] c.t = "rev" -> LET n == ToldAt(as, made[c.reg].said, made[c.cred].said) IN [as EXCEPT !.tel[n].st = 2, !.tel[n].last = c.said]

\* ------------------------------------------------------------- presentation
\* known: how many schemas there are
Covers(p) == p \in {<< >>, <<"d">>}
AdmitsCred(as, made, j, groups, known) ==
    LET c == made[j]
        n == IssuerAt(as, made[c.by].said)
        r == RegistryAt(as, made[c.reg].said)
    IN /\ c.t = "cred"
       /\ Spoilt(c) = ""
       /\ n # 0 /\ r # 0 /\ as.regs[r].owner = made[c.by].said
       /\ Issued(as, made[c.reg].said, c.said)
       /\ c.schema \in 1 .. known
       /\ \A i \in 1 .. Len(c.edges) :
            LET m == CredAt(as, made[c.edges[i].n].said) IN
            /\ m # 0 /\ Stands(as, as.creds[m].said)
            /\ as.creds[m].schema = c.edges[i].s
            /\ as.creds[m].to # << >> => as.creds[m].to = made[c.by].said
       /\ \E g \in 1 .. Len(groups) : \E k \in 1 .. Len(groups[g].paths) :
            LET q == groups[g].paths[k]  p == groups[g].root \o q.path IN
            /\ made[q.by].said = made[c.by].said
            /\ Covers(p)
            /\ SignedBy(made, as.iss[n], PartOf(made, j, p), q.sigs, LAMBDA s : PartOf(made, s.over, s.part))
AdmittedCred(as, made, j) ==
    LET c == made[j] IN
    IF CredAt(as, c.said) # 0 THEN as
    ELSE [as EXCEPT !.creds = Append(@, [said |-> c.said, by |-> made[c.by].said, reg |-> made[c.reg].said, schema |-> c.schema,
                                         to |-> IF c.form = "said" \/ c.to = 0 THEN << >> ELSE made[c.to].said, subject |-> SubjectOf(made, c),
                                         nodes |-> Tup([i \in 1 .. Len(c.edges) |-> made[c.edges[i].n].said])])]

\* ------------------------------------------------------ disclosed by degrees
\* the part that credential k says of its subject, shown for credential j
AdmitsShown(as, made, j, k) ==
    LET n == CredAt(as, made[j].said) IN n # 0 /\ made[k].t = "cred" /\ Spoilt(made[k]) # "subject" /\ as.creds[n].subject = SubjectOf(made, made[k])
AdmittedShown(as, made, j, k) == [as EXCEPT !.creds[CredAt(as, made[j].said)].to = SubjectOf(made, made[k])[1]]
=============================================================================
