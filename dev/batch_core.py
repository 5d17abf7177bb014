EV, TV, VV, KP, KR, XC = ("src/keri/core/eventing.py", "src/keri/vdr/eventing.py", "src/keri/vdr/verifying.py",
                          "src/keri/app/keeping.py", "src/keri/core/kraming.py", "src/keri/peer/exchanging.py")
B = [
 # registries
 ("tel-anchor-said", "R01,V01", TV, "        if eserder.said != saider.qb64:\n            return False\n", ""),
 ("tel-anchor-sn", "R01,V01", TV, 'if spre == serder.ked["i"] and ssn == serder.ked["s"] \\\n', 'if spre == serder.ked["i"] \\\n'),
 ("tel-rotate-prior", "R01", TV, "        if not self.serder.compare(said=dig):  # prior event dig not match\n            raise ValidationError(\"Mismatch event dig = {} with state dig\"\n                                  \" = {} for evt = {}.\".format(dig,\n                                                               self.serder.said,\n                                                               ked))\n\n        witset", "        witset"),
 ("tel-issue-ri", "R01", TV, "            if regi != self.prefixer.qb64:\n                raise ValidationError(\"Mismatch event regi", "            if regi[:1] != self.prefixer.qb64[:1]:\n                raise ValidationError(\"Mismatch event regi"),
 ("tel-simple-issue-backers", "R01", TV, "        if ilk == Ilks.iss:  # simple issue\n            if self.noBackers is False:", "        if ilk == Ilks.iss:  # simple issue\n            if self.noBackers is None:"),
 ("tel-toad-bindices", "R01", TV, "            if len(bindices) < toad:", "            if len(bindices) < toad - 1:"),
 ("tel-toad-bigers", "R01", TV, "            if len(bindices) < toad:", "            if len(bigers) + len(set(bindices)) < 2 * toad - 1:"),
 ("tel-reload-nobackers", "R01", TV, "self.noBackers = True if TraitDex.NoBackers in ked[\"c\"] else False", "self.noBackers = True if ked[\"c\"] or not self.baks else False"),
 ("tel-cuts-adds", "R01", TV, "        if witset & addset:  # non empty intersection\n            raise ValidationError(\"Intersecting baks", "        if False:  # non empty intersection\n            raise ValidationError(\"Intersecting baks"),
 ("tel-vcstate-rev", "R01,V01", TV, "vcilk = Ilks.bis if len(digs) == 1 else Ilks.brv", "vcilk = Ilks.bis if vcsn < 2 else Ilks.brv"),
 ("tel-backers-cut", "R01", TV, "        baks = list((witset - cutset) | addset)\n\n        if len(baks) != (len(self.baks) - len(cuts) + len(adds)):  # redundant?\n            raise ValidationError(\"Invalid member combination among baks", "        baks = list(addset | (witset - cutset))\n\n        if len(baks) != (len(self.baks) - len(cuts) + len(adds)):  # redundant?\n            raise ValidationError(\"Invalid member combination among baks"),
 ("tel-revoked-again", "R01", TV, "                Tevery.registryKey(iserder) != self.regk):", "                Tevery.registryKey(iserder) != self.regk and self.noBackers):"),
 ("vc-issuer", "V01", VV, "        if creder.israid != self.tevers[regk].pre:", "        if creder.israid != self.tevers[regk].pre and creder.edge is None:"),
 ("vc-revoked-far", "V01", VV, "                elif state.et in (Ilks.rev, Ilks.brv):\n                    raise", "                elif state.et in (Ilks.brv,):\n                    raise"),
 ("vc-revoked-near", "V01", VV, "        elif state.et in (Ilks.rev, Ilks.brv):  # no escrow", "        elif state.et in (Ilks.rev,):  # no escrow"),
 ("vc-expired", "V01", VV, "        if (dtnow - dte) > datetime.timedelta(seconds=self.CredentialExpiry):\n            if self.escrowMRE", "        if (dte - dtnow) > datetime.timedelta(seconds=self.CredentialExpiry):\n            if self.escrowMRE"),
 ("vc-edge-schema", "V01", VV, "                    if farCreder.schema != nodeSchema:\n", "                    if farCreder.schema != nodeSchema and farCreder.edge:\n"),
 ("vc-stale-escrow", "V01", VV, "                if (dtnow - dte) > datetime.timedelta(seconds=timeout):\n", "                if (dtnow - dte).seconds > timeout:\n"),
 # key store
 ("ks-kidx-rotate", "M01", KP, "        kidx = ps.nxt.kidx + len(ps.new.pubs)\n", "        kidx = ps.nxt.kidx + len(ncodes)\n"),
 ("ks-erase-new", "M01", KP, "            for pub in old.pubs:  # remove prior old prikeys not current old", "            for pub in ps.old.pubs:  # remove prior old prikeys not current old"),
 ("ks-nxt-plain", "M01", KP, "        for signer in nsigners:  # store secrets (private key val keyed by public key)\n            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,\n                             encrypter=self.encrypter)", "        for signer in nsigners:  # store secrets (private key val keyed by public key)\n            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,\n                             encrypter=self.encrypter if not creator.salt else None)"),
 ("ks-move-nopubs", "M01,M02", KP, "            i += 1\n\n        # assign", "            i += 2\n\n        # assign"),
 ("ks-dcode", "M01", KP, "        digers = [Diger(ser=signer.verfer.qb64b, code=dcode) for signer in signers]\n\n        dt = nowIso8601()\n        ps.nxt", "        digers = [Diger(ser=signer.verfer.qb64b) for signer in signers]\n\n        dt = nowIso8601()\n        ps.nxt"),
 ("ks-sign-ondex-none", "M01", KP, "only=True if o is None else False,", "only=True if not o else False,"),
 ("ks-transferable", "M01", KP, "        nsigners = creator.create(codes=ncodes, count=0,\n                                  pidx=pidx, ridx=ridx+1, kidx=kidx+len(icodes),\n                                  transferable=transferable, temp=temp)", "        nsigners = creator.create(codes=ncodes, count=0,\n                                  pidx=pidx, ridx=ridx+1, kidx=kidx+len(icodes),\n                                  temp=temp)"),
 # replay protection
 ("kr-seal-anysender", "K12", KR, "            if seal.get('d') == msg.said:\n                return True", "            if seal.get('d') == msg.said or seal.get('i') == msg.said:\n                return True"),
 ("kr-lsgs-other", "K12", KR, "            if prefixer.qb64 != senderId:\n                continue\n            for siger in sigers:\n                pool.add(siger.qb64)\n\n        # tsgs", "            for siger in sigers:\n                pool.add(siger.qb64)\n\n        # tsgs"),
 ("kr-tsgs-said", "K12", KR, "            if (number.sn != kever.lastEst.s or\n                    sdiger.qb64 != kever.lastEst.d):\n                continue", "            if (number.sn != kever.lastEst.s):\n                continue"),
 ("kr-cigar-any", "K12", KR, "            if senderId != cigar.verfer.qb64:  # sender identity check\n                continue\n            if cigar.verfer.verify(cigar.raw, msg.raw):", "            if cigar.verfer.verify(cigar.raw, msg.raw):"),
 ("kr-newer", "K12", KR, "        return newMdtMs > cachedMdtMs", "        return newMdtMs >= cachedMdtMs"),
 ("kr-hassig-order", "K12", KR, "            if len(kever.verfers) == 1:\n                return AuthTypes.AttachedSignatureSingleKey, False\n            return AuthTypes.AttachedSignatureMultiKey, False\n\n        if hasSealRef and hasSigs:", "            if len(kever.verfers) < 3:\n                return AuthTypes.AttachedSignatureSingleKey, False\n            return AuthTypes.AttachedSignatureMultiKey, False\n\n        if hasSealRef and hasSigs:"),
 # key events
 ("ev-duplicate-sig-escrow", "K02,K01", EV, "        self.db.pses.add(keys=serder.preb, on=serder.sn, val=serder.saidb)", "        self.db.pses.put(keys=serder.preb, on=serder.sn, vals=[serder.saidb]) if self.db.pses.cnt(keys=serder.preb, on=serder.sn) == 0 else None"),
 ("ev-prior-est", "K01,K03", EV, "        if serder.ilk != Ilks.drt or serder.sn > self.lastEst.s:", "        if serder.ilk != Ilks.drt or serder.sn >= self.lastEst.s:"),
 ("ev-exposed-code", "K01,K07", EV, "            kdig = Diger(ser=siger.verfer.qb64b, code=diger.code).qb64", "            kdig = Diger(ser=siger.verfer.qb64b).qb64"),
 ("ev-delpre-drt", "K06", EV, "            delpre = self.delpre  # delpre in kever state", "            delpre = self.delpre or serder.delpre  # delpre in kever state"),
 ("ev-dnd-check", "K06", EV, "        if dkever.doNotDelegate:  # drop event", "        if dkever.doNotDelegate and serder.ilk == Ilks.dip:  # drop event"),
 ("ev-supersede-ixn-kind", "K06", EV, "                  bosso.ilk == Ilks.ixn)): # superseded", "                  bosso.ilk != Ilks.drt)): # superseded"),
 ("ev-nindex", "K06", EV, "                if nindex > oindex:", "                if nindex != oindex:"),
 ("ev-fn-clone", "K05,K03", EV, "            if dater:  # cloned replay use original's dts from dater", "            if dater and firner.sn:  # cloned replay use original's dts from dater"),
 ("ev-esrs-remote", "K13,K02", EV, "            if local and not esr.local:  # local overwrites prexisting remote\n                esr.local = local\n                self.db.esrs.pin(keys=dgkeys, val=esr)", "            if local != esr.local:  # local overwrites prexisting remote\n                esr.local = local\n                self.db.esrs.pin(keys=dgkeys, val=esr)"),
 ("ev-aess-drop", "K05,K06", EV, "and not self.locallyWitnessed(wits=wits) and delnum and diger):", "and not self.locallyWitnessed(wits=wits) and delnum and delnum.num and diger):"),
 ("ev-toad-windices", "K01", EV, "                if len(windices) < toader.num:  # not fully", "                if len(wigers) < toader.num and len(windices) < toader.num:  # not fully"),
 ("ev-rct-nontrans-index", "K10", EV, "                    index = wits.index(rpre)\n                    # create witness indexed signature and write to db\n                    wiger = Siger(raw=cigar.raw, index=index, verfer=cigar.verfer)\n                    self.db.wigs.add(keys=(pre, ldig), val=wiger)\n                else:  # write receipt to database\n                    self.db.rcts.add(keys=(pre, ldig), val=(cigar.verfer, cigar))\n\n\n    def processAttachedReceiptSigGroups", "                    index = len(wits) - 1 - wits.index(rpre)\n                    wiger = Siger(raw=cigar.raw, index=index, verfer=cigar.verfer)\n                    self.db.wigs.add(keys=(pre, ldig), val=wiger)\n                else:  # write receipt to database\n                    self.db.rcts.add(keys=(pre, ldig), val=(cigar.verfer, cigar))\n\n\n    def processAttachedReceiptSigGroups"),
 # replies
 ("rp-endrole-keys", "K09", EV, "        keys = (aid, role, eid)\n", "        keys = (aid, role, cid)\n"),
 ("rp-endrole-scheme", "K09", EV, "        if splits.scheme and splits.scheme != scheme:", "        if splits.scheme and not splits.scheme.startswith(scheme):"),
 ("rp-role-unknown", "K09", EV, "        if role not in Roles:\n            raise ValidationError(f\"Invalid role={role}", "        if False:\n            raise ValidationError(f\"Invalid role={role}"),
]
