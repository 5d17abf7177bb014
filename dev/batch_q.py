EV, TV, HB, ST, ES, NO, RT = ("src/keri/core/eventing.py", "src/keri/vdr/eventing.py", "src/keri/app/habbing.py", "src/keri/app/storing.py",
                          "src/keri/db/escrowing.py", "src/keri/app/notifying.py", "src/keri/core/routing.py")
B = [
 ("q-put-pin", "Q01", EV, "        self.db.dtss.put(keys=dgkey, val=Dater())\n        self.db.sigs.put(keys=dgkey, vals=sigers)\n        self.db.evts.put(keys=(prefixer.qb64b",
  "        self.db.dtss.pin(keys=dgkey, val=Dater())\n        self.db.sigs.put(keys=dgkey, vals=sigers)\n        self.db.evts.put(keys=(prefixer.qb64b"),
 ("q-sn-le", "Q01", EV, "                if kever.sner.num < sn or not self.db.fullyWitnessed(kever.serder):", "                if kever.sner.num <= sn or not self.db.fullyWitnessed(kever.serder):"),
 ("q-sn-full", "Q01", EV, "                if kever.sner.num < sn or not self.db.fullyWitnessed(kever.serder):", "                if kever.sner.num < sn or not (sn or self.db.fullyWitnessed(kever.serder)):"),
 ("q-elif-sn", "Q01", EV, "            elif sn is not None:\n                if kever.sner.num < sn", "            elif sn:\n                if kever.sner.num < sn"),
 ("q-dest-src", "Q01", EV, "msgs=msgs, dest=dest))", "msgs=msgs, dest=src))"),
 ("q-fn-hex", "Q01", EV, 'fn = int(qry["fn"], 16) if "fn" in qry else 0', 'fn = int(qry["fn"]) if "fn" in qry else 0'),
 ("q-sn-dec", "Q01", EV, 'sn = int(qry["s"], 16) if "s" in qry else None', 'sn = int(qry["s"]) if "s" in qry else None'),
 ("q-ksn-toad", "Q01", EV, "            if len(wigers) < kever.toader.num:\n                self.escrowQueryNotFoundEvent", "            if len(wigers) < min(1, kever.toader.num):\n                self.escrowQueryNotFoundEvent"),
 ("q-delegator-missing", "Q01,Q02", EV, "            if kever.delpre:\n                dkever = self.kevers[kever.delpre]  # Get the delegator's kever so", "            if kever.delpre and fn == 0 and sn is None:\n                dkever = self.kevers[kever.delpre]  # Get the delegator's kever so"),
 ("q2-stale-reg", "Q02", TV, "            if int(rsr.s, 16) < tever.sn:", "            if int(rsr.s, 16) < tever.sn - 1:"),
 ("q2-untrusted-reg", "Q02", TV, "            if aid != pre and \\\n                    aid not in baks and \\\n                    aid not in wats:\n                raise UntrustedKeyStateSource(\"transaction state notice for {} from untrusted source {} \"\n                                                     .format(rsr.i, aid))",
  "            if aid != pre and baks and \\\n                    aid not in baks and \\\n                    aid not in wats:\n                raise UntrustedKeyStateSource(\"transaction state notice for {} from untrusted source {} \"\n                                                     .format(rsr.i, aid))"),
 ("q2-mismatch-vc", "Q02", TV, '        if sserder.said != tdiger.qb64:  # mismatch events problem with replay\n            raise ValidationError("Mismatch txn state', '        if sn > sserder.sn:  # mismatch events problem with replay\n            raise ValidationError("Mismatch txn state'),
 ("q2-mre-regsn", "Q02", TV, "        if regk not in self.tevers or self.tevers[regk].sn < regsn:", "        if regk not in self.tevers:"),
 ("q2-ooo-key", "Q02", TV, 'typ="credential-ooo", pre=vci, aid=aid', 'typ="credential-ooo", pre=regk, aid=aid'),
 ("q2-vcstate-ilk", "Q02,V01", TV, "            vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev", "            vcilk = Ilks.iss if vcsn < 2 else Ilks.rev"),
 ("q2-vcstate-dig", "Q02,V01", TV, "        vcdig = digs[-1].encode", "        vcdig = digs[0].encode"),
 ("q2-broker-typ", "Q02", ES, "                    self.escrowdb.rem(keys=(typ, pre, aid), val=diger)  # remove escrow\n                    logger.info", "                    self.escrowdb.rem(keys=(typ, pre, aid))  # remove escrow\n                    logger.info"),
 ("q2-broker-cigars", "Q02", ES, "        for cigar in cigars:  # process each couple to verify sig and write to db\n            self.cigardb.put(keys=keys, vals=[(cigar.verfer, cigar)])", "        for cigar in cigars if not tsgs else []:  # process each couple\n            self.cigardb.put(keys=(aid,), vals=[(cigar.verfer, cigar)])"),
 ("q2-resp-dest", "Q02", ST, "                atc = hab.endorse(serder, framed=False, gvrsn=serder.pvrsn)\n                del atc[:serder.size]\n                self.postman.send(hab=hab, dest=dest,", "                atc = hab.endorse(serder, framed=False, gvrsn=serder.pvrsn)\n                del atc[:serder.size]\n                self.postman.send(hab=hab, dest=src,"),
 ("q2-resp-first", "Q02", ST, "                for msg in msgs:\n                    raw = bytearray(msg)", "                for msg in msgs[:1] + msgs[2:]:\n                    raw = bytearray(msg)"),
 ("q2-tels-fn", "Q02", TV, "        for _, fn, dig in self.tels.getAllItemIter(keys=pre, on=fn):", "        for _, fn, dig in self.tels.getAllItemIter(keys=pre, on=fn or 0) if fn else list(self.tels.getAllItemIter(keys=pre))[-2:]:"),
 ("q2-clone-tibs", "Q02", TV, "        return coreMessagize(serder, wigers=tibs or None, bonds=seal,", "        return coreMessagize(serder, wigers=tibs[:1] or None, bonds=seal,"),
 ("q2-stale-ksn", "Q02", EV, "            if int(ksr.s, 16) < kever.sner.num:\n                raise ValidationError(\"Skipped stale key state", "            if int(ksr.s, 16) < kever.lastEst.s:\n                raise ValidationError(\"Skipped stale key state"),
 ("q2-untrusted-ksn", "Q02", EV, "            if aid != ksr.i and \\\n                    aid not in baks and", "            if aid != ksr.i and baks and \\\n                    aid not in baks and"),
]
