G = "_group.py"
E17, E18 = {"C17"}, {"C18"}
UQ = "                    self._slot_relay, check_nargs=False, check_types=False, unique=True\n"
RL = "            info = EmissionInfo(emitter, args)\n"
AP = "        super()._append_slot(slot)\n        if len(self._slots) == 1:\n            self._connect_relay()\n"
RM = "        super()._remove_slot(slot)\n        if not self._slots:\n            self._disconnect_relay()\n"
DC = """        for sig in self._signals.values():
            if slot is not None and slot in sig:
                missing_ok = True
            sig.disconnect(slot)
        super().disconnect(slot, missing_ok)
"""
DR = "        for sig in self._signals.values():\n            sig.disconnect(self._slot_relay)\n"
AL = "        cls._psygnal_aliases = {**aliases, **signal_aliases}\n"
CS = '            **getattr(cls, "_psygnal_signals", {}),\n            **_psygnal_signals,\n'
CASES = [
    ("gr-info-swap", G, [(RL, "            info = EmissionInfo(emitter, (args,))\n")], E17),
    ("gr-info-self", G, [(RL, "            info = EmissionInfo(self, args)\n")], E17),
    ("gr-info-trunc", G, [(RL, "            info = EmissionInfo(emitter, args[:1])\n")], E17),
    ("gr-info-twice", G, [("                self._args_queue.append((info,))\n                return\n", "                self._args_queue.append((info,))\n")], E17),
    ("gr-info-flat", G, [("            self._run_emit_loop((info,))", "            self._run_emit_loop(info)")], E17),
    ("gr-attach-always", G, [("        if len(self._slots) == 1:\n            self._connect_relay()", "        self._connect_relay()"),
                             (UQ, UQ.replace(", unique=True", ""))], E17),
    ("gr-attach-two", G, [("        if len(self._slots) == 1:\n            self._connect_relay()", "        if len(self._slots) == 2:\n            self._connect_relay()")], E17),
    ("gr-attach-limit", G, [(UQ, UQ.replace("unique=True", "unique=True, max_args=1"))], E17),
    ("gr-detach-early", G, [("        if not self._slots:\n            self._disconnect", "        if len(self._slots) < 2:\n            self._disconnect")], E17),
    ("gr-detach-never", G, [("        if not self._slots:\n            self._disconnect_relay()\n", "")], E17),
    ("gr-detach-all-only", G, [("        if not self._slots:\n            self._disconnect", "        if slot == 'all' and not self._slots:\n            self._disconnect")], E17),
    ("gr-detach-notvalue", G, [("        if not self._slots:\n            self._disconnect", "        if isinstance(slot, (int, str)) and not self._slots:\n            self._disconnect")], E17),
    ("gr-detach-first", G, [(DR, DR + "            break\n")], E17),
    ("gr-attach-flag", G, [(AP, "        super()._append_slot(slot)\n        if not self._wired:\n            self._wired = True\n            self._connect_relay()\n"),
                           ("        self._sig_was_blocked: dict[str, bool] = {}\n", "        self._sig_was_blocked: dict[str, bool] = {}\n        self._wired = False\n")], E17),
    ("same-attach-before", G, [(AP, "        first = not self._slots\n        super()._append_slot(slot)\n        if first:\n            self._connect_relay()\n")], set()),
    ("same-attach-always", G, [("        if len(self._slots) == 1:\n            self._connect_relay()", "        self._connect_relay()")], set()),
    ("same-detach-len", G, [("        if not self._slots:\n            self._disconnect", "        if len(self._slots) == 0:\n            self._disconnect")], set()),
    ("same-info-kw", G, [(RL, "            info = EmissionInfo(signal=emitter, args=args)\n")], set()),
    ("same-info-early", G, [("        if emitter := Signal.current_emitter():\n" + RL, "        emitter = Signal.current_emitter()\n        if not emitter:\n            return\n        info = EmissionInfo(emitter, args)\n        if True:\n")], set()),
    ("same-info-none", G, [("        if emitter := Signal.current_emitter():\n", "        emitter = Signal.current_emitter()\n        if emitter is not None:\n")], set()),
    # C18
    ("gr-pass-nargs", G, [("                slot,\n                thread=thread,\n                check_nargs=check_nargs,", "                slot,\n                thread=thread,\n                check_nargs=check_types,")], E18),
    ("gr-pass-prio", G, [("                on_ref_error=on_ref_error,\n                priority=priority,\n            )\n        else", "                on_ref_error=on_ref_error,\n            )\n        else")], E18),
    ("gr-pass-exclude", G, [("self._psygnal_relay.blocked(exclude=exclude)", "self._psygnal_relay.blocked()")], E18),
    ("gr-pass-missing", G, [("disconnect(slot=slot, missing_ok=missing_ok)", "disconnect(slot=slot)")], E18),
    ("gr-pass-initial", G, [("self._psygnal_relay.resume(reducer=reducer, initial=initial)", "self._psygnal_relay.resume(reducer=reducer)")], E18),
    ("gr-pass-pause", G, [("return self._psygnal_relay.pause()", "return self._psygnal_relay.block()")], E18),
    ("gr-pass-ret", G, [("        return self._psygnal_relay.paused(", "        self._psygnal_relay.paused(")], E18),
    ("gr-direct-unique", G, [("                    unique=unique,\n                    max_args=max_args,\n                )\n            return slot", "                    max_args=max_args,\n                )\n            return slot")], E18),
    ("gr-direct-first", G, [("                    max_args=max_args,\n                )\n            return slot\n", "                    max_args=max_args,\n                )\n                return slot\n            return slot\n")], E18),
    ("gr-direct-none", G, [("        return _inner if slot is None else _inner(slot)\n\n    def block", "        return _inner if not unique else _inner(slot)\n\n    def block")], E18),
    ("gr-disc-firstonly", G, [(DC, DC.replace("            sig.disconnect(slot)\n", "            sig.disconnect(slot)\n            if missing_ok and slot is not None:\n                return\n"))], E18),
    ("gr-disc-norelay", G, [(DC, DC.replace("        super().disconnect(slot, missing_ok)\n", "        if slot is None or not missing_ok:\n            super().disconnect(slot, missing_ok)\n"))], E18),
    ("gr-disc-strict", G, [(DC, DC.replace("            if slot is not None and slot in sig:\n                missing_ok = True\n", ""))], E18),
    ("gr-disc-lenient", G, [(DC, DC.replace("super().disconnect(slot, missing_ok)", "super().disconnect(slot)"))], E18),
    ("gr-names-len", G, [("        return len(self._psygnal_instances)", "        return len(self._psygnal_signals)")], set()),
    ("gr-relay-copy", G, [("SignalRelay(self._psygnal_instances, instance)", "SignalRelay(self._psygnal_instances)")], E18),
    ("gr-relay-some", G, [("SignalRelay(self._psygnal_instances, instance)", "SignalRelay({k: v for k, v in self._psygnal_instances.items() if k not in cls._psygnal_name_conflicts}, instance)")], E18),
    ("gr-made-some", G, [("            for name, sig in cls._psygnal_signals.items()\n        }", "            for name, sig in cls._psygnal_signals.items()\n            if not name.startswith('_')\n        }")], E18),
    ("gr-inherit-alias", G, [(AL, "        cls._psygnal_aliases = {**signal_aliases}\n")], E18),
    ("gr-inherit-order", G, [(AL, "        cls._psygnal_aliases = {**signal_aliases, **aliases}\n")], E18),
    ("gr-inherit-sig", G, [(CS, "            **_psygnal_signals,\n")], E18),
    ("gr-inherit-own", G, [(AL, "        cls._psygnal_aliases = dict(aliases)\n")], E18),
    ("same-inherit-or", G, [(AL, "        cls._psygnal_aliases = {**getattr(cls, '_psygnal_aliases', {}), **dict(signal_aliases)}\n")], set()),
    ("same-inherit-upd", G, [(AL, "        merged = dict(aliases)\n        merged.update(signal_aliases)\n        cls._psygnal_aliases = merged\n")], set()),
    ("same-pass-pos", G, [("disconnect(slot=slot, missing_ok=missing_ok)", "disconnect(slot, missing_ok)")], set()),
    ("same-pass-one", G, [("        if slot is None:\n            return self._psygnal_relay.connect(\n                thread=thread,\n                check_nargs=check_nargs,\n                check_types=check_types,\n                unique=unique,\n                max_args=max_args,\n                on_ref_error=on_ref_error,\n                priority=priority,\n            )\n        else:\n            return", "        if True:\n            return")], set()),
    ("same-disc-any", G, [(DC, """        found = False
        for sig in self._signals.values():
            found = found or (slot is not None and slot in sig)
            sig.disconnect(slot)
        super().disconnect(slot, missing_ok or found)
""")], set()),
    ("same-disc-list", G, [(DC, """        members = list(self._signals.values())
        if slot is not None and any(slot in s for s in members):
            missing_ok = True
        for s in members:
            s.disconnect(slot)
        super().disconnect(slot, missing_ok=missing_ok)
""")], set()),
    ("same-direct-loop", G, [("            for sig in self._signals.values():\n                sig.connect(\n                    slot,", "            for _, sig in self._signals.items():\n                sig.connect(\n                    slot,")], set()),
    ("same-init-loop", G, [("""        self._psygnal_instances = {
            name: (
                sig._create_signal_instance(self)
                if name in cls._psygnal_name_conflicts
                else sig.__get__(self, cls)
            )
            for name, sig in cls._psygnal_signals.items()
        }
""", """        made = {}
        for name, sig in cls._psygnal_signals.items():
            if name in cls._psygnal_name_conflicts:
                made[name] = sig._create_signal_instance(self)
            else:
                made[name] = sig.__get__(self, cls)
        self._psygnal_instances = made
""")], set()),
]
