EV = "src/keri/core/eventing.py"
EX = "src/keri/peer/exchanging.py"
PR = "src/keri/vc/protocoling.py"
B = [
 # K13
 ("mf-owned-est", "K13", EV, "        if (not local and (self.locallyOwned() or\n", "        if (not local and ((self.locallyOwned() and serder.ilk != Ilks.ixn) or\n"),
 ("mf-witness-old", "K13", EV, "                            self.locallyWitnessed(wits=wits) or\n                            self.locallyDelegated(pre=delpre))):", "                            self.locallyWitnessed(wits=self.wits if hasattr(self, 'wits') else wits) or\n                            self.locallyDelegated(pre=delpre))):"),
 ("mf-drt-delpre", "K13", EV, "        elif serder.ilk == Ilks.drt:  # serder.ilk == Ilks.drt so rotation\n            delpre = self.delpre  # delpre in kever state\n        else:", "        elif serder.ilk == Ilks.drt and local:  # serder.ilk == Ilks.drt so rotation\n            delpre = self.delpre  # delpre in kever state\n        else:"),
 ("mf-toad-witness", "K13,K01", EV, "            if (not (self.locallyOwned() or self.locallyMembered() or\n                        self.locallyWitnessed(wits=wits))):", "            if (not (self.locallyOwned() or self.locallyMembered() or\n                        (self.locallyWitnessed(wits=wits) and wigers))):"),
 ("mf-member-past", "K13", EV, "        if serder is not None and serder.estive and serder.verfers:\n            pubs.add", "        if serder is not None and serder.estive and serder.verfers and serder.sn == kever.lastEst.s:\n            pubs.add"),
 ("mf-member-next", "K13", EV, "    pubs |= {verfer.qb64 for verfer in verfers for diger in kever.ndigers\n             if Diger(", "    pubs |= {verfer.qb64 for verfer in verfers[1:] for diger in kever.ndigers\n             if Diger("),
 ("mf-delegable-local", "K13", EV, "            if delsner is None or delsger is None: # missing delegation seal\n                # so escrow delegable.", "            if (delsner is None or delsger is None) and wigers is None: # missing delegation seal\n                # so escrow delegable."),
 # X01/X02
 ("ex-sn-le", "X01", EX, "                if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:", "                if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn + 1 < snumber.sn:"),
 ("ex-cigar-first", "X01", EX, "            for cigar in cigars:\n                if sender != cigar.verfer.qb64:", "            for cigar in cigars[:1]:\n                if sender != cigar.verfer.qb64:"),
 ("ex-esigs-trim", "X01", EX, "            self.hby.db.esigs.trim(keys=(dig, \"\"))  # unverified ones from escrow\n            self.hby.db.essrs.rem(keys=(dig,))\n        for prefixer", "            self.hby.db.essrs.rem(keys=(dig,))\n        for prefixer"),
 ("ex-epsd-pin", "X01", EX, "        self.hby.db.epsd.put(keys=(dig,), val=Dater())\n", "        self.hby.db.epsd.pin(keys=(dig,), val=Dater())\n"),
 ("ex-quad-old", "X01", EX, "                    if quad != old:  # new tsg\n                        if sigers:", "                    if old and quad[:2] != old[:2] or not old:  # new tsg\n                        if sigers:"),
 ("ex-ready-first", "X01", EX, "                ready = [tsg for tsg in tsgs if self.satisfied(serder, *tsg)]", "                ready = [tsg for tsg in tsgs[:1] if self.satisfied(serder, *tsg)]"),
 ("ex-exns-first", "X01,X02", EX, "        self.hby.db.exns.put(keys=(dig,), val=serder)\n\n    def lead", "\n    def lead", "        if self.hby.db.exns.get(keys=(dig,)) is None:  # not yet accepted\n            self.hby.db.esigs.trim", "        fresh = self.hby.db.exns.get(keys=(dig,)) is None\n        self.hby.db.exns.put(keys=(dig,), val=serder)\n        if fresh:  # not yet accepted\n            self.hby.db.esigs.trim"),
 ("ex-erpy-late", "X02", EX, "        self.hby.db.exns.put(keys=(dig,), val=serder)\n\n    def lead", "\n    def lead", "        if pdig:\n            prior =", "        self.hby.db.exns.put(keys=(dig,), val=serder)\n        if pdig:\n            prior ="),
 ("ex-erpy-put", "X02", EX, "                self.hby.db.erpy.pin(keys=(pdig,), val=diger)\n            else:", "                self.hby.db.erpy.put(keys=(pdig,), val=diger)\n            else:"),
 ("ex-pathed", "X01", EX, "        if self.hby.db.exns.get(keys=(dig,)) is None:\n            self.hby.db.epath.pin", "        if pathed:\n            self.hby.db.epath.pin"),
 ("ex-stale", "X01", EX, "                if (dtnow - dte) > datetime.timedelta(seconds=self.TimeoutPSE):", "                if (dtnow - dte).seconds > self.TimeoutPSE:"),
 ("ex-reject-esigs", "X02,X01", EX, "                if not saved:\n                    self.hby.db.esigs.trim(keys=(dig, \"\"))\n                    self.hby.db.epath.rem(keys=(dig,))\n                    self.hby.db.enst.rem(keys=(dig,))\n                    self.hby.db.essrs.rem(keys=(dig,))\n                    logger.info(\"Exchanger unescrow rejected", "                self.hby.db.esigs.trim(keys=(dig, \"\"))\n                if not saved:\n                    self.hby.db.epath.rem(keys=(dig,))\n                    self.hby.db.enst.rem(keys=(dig,))\n                    self.hby.db.essrs.rem(keys=(dig,))\n                    logger.info(\"Exchanger unescrow rejected"),
 ("ip-spurn-prior", "X02", PR, "                if self.verb(pserder) not in PreviousRoutes[verb]:\n                    return False\n\n                return self.response(pserder) is None  # Make sure we don't have a response already\n\n        return False", "                if self.verb(pserder) not in PreviousRoutes[verb]:\n                    return False\n\n                return verb == Ipex.spurn or self.response(pserder) is None  # Make sure we don't have a response already\n\n        return False"),
 ("ip-route-tail", "X02", PR, "            case [\"\", \"ipex\", verb] if verb in Ipex:", "            case [*_, verb] if verb in Ipex:"),
 ("ip-response-any", "X02", PR, "            if rserder is not None and self.verb(rserder) is not None:", "            if rserder is not None:"),
 ("ip-apply-dig", "X02", PR, "                if not dig:  # Apply messages can only start an IPEX exchange\n                    return True\n", "                return True\n"),
]
