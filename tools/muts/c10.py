B = 'classes/base.py'
M = [
 ('pop_unresolved', 'bad', [(B, "        k = keySearch(self, k)\n        return super().pop(k, *args)", "        return super().pop(k, *args)")]),
 ('del_unresolved', 'bad', [(B, "        k = keySearch(self, k)\n        super().__delitem__(k)", "        super().__delitem__(k)")]),
 ('contains_plain', 'bad', [(B, "return super().__contains__(keySearch(self, o))", "return super().__contains__(o)")]),
 ('search_is', 'bad', [(B, "            if k == key:\n                k = key\n                break", "            if k is key:\n                k = key\n                break")]),
 ('search_first_only', 'bad', [(B, "            if k == key:\n                k = key\n                break", "            if k == key:\n                k = key\n            break")]),
 ('set_super_update', 'bad', [(B, "        if hasattr(mapping, \"keys\"):\n            for k in mapping:\n                self[k] = mapping[k]\n", "        if hasattr(mapping, \"keys\"):\n            super().update(mapping)\n")]),
 ('update_kw', 'bad', [(B, "        for k, v in kwargs.items():\n            self[k] = v\n", "        super().update(kwargs)\n")]),
 ('eq_all', 'bad', [(B, "return any(it in self._aliasClass__members() for it in other._aliasClass__members())", "return all((it in self._aliasClass__members()) for it in other._aliasClass__members())")]),
 ('eq_name_only', 'bad', [(B, "return any(it == other for it in self._aliasClass__members())", "return self.name == other")]),
 ('setdefault_super', 'bad', [(B, "if not self.__contains__(__key):", "if not super().__contains__(__key):")]),
 ('get_super', 'bad', [(B, "            return self.__getitem__(key)", "            return super().__getitem__(key)")]),
 ('hash_alias', 'bad', [(B, "return hash(self.name)", "return hash(self._allStringSum())")]),
 ('weak_deref', 'bad', [(B, "return obj if isinstance(obj, named) else obj()", "return obj")]),
 ('terms_dict', 'bad', [('classes/QSystem.py', "self._QuantumSystem__terms = aliasDict()", "self._QuantumSystem__terms = {}")]),
 ('inline_search', 'same', [(B, "    if k not in obj.keys():\n        for key in obj.keys():\n            if k == key:\n                k = key\n                break\n    return k", "    if k in obj.keys():\n        return k\n    for key in obj.keys():\n        if key == k:\n            return key\n    return k")]),
 ('next_search', 'same', [(B, "        for key in obj.keys():\n            if k == key:\n                k = key\n                break\n    return k", "        k = next((key for key in obj.keys() if k == key), k)\n    return k")]),
 ('no_shortcut', 'same', [(B, "    if k not in obj.keys():\n        for key in obj.keys():\n            if k == key:\n                k = key\n                break\n    return k", "    for key in obj.keys():\n        if k == key:\n            return key\n    return k")]),
 ('iter_self', 'same', [(B, "        for key in obj.keys():\n            if k == key:", "        for key in list(obj):\n            if key == k:")]),
 ('pop_inline', 'same', [(B, "        k = keySearch(self, k)\n        return super().pop(k, *args)", "        return super().pop(keySearch(self, k), *args)")]),
 ('setdefault_in', 'same', [(B, "if not self.__contains__(__key):", "if __key not in self:"), (B, "self.__setitem__(__key, __default)", "self[__key] = __default")]),
 ('eq_sets', 'same', [(B, "return any(it in self._aliasClass__members() for it in other._aliasClass__members())", "mem = self._aliasClass__members()\n            for it in other._aliasClass__members():\n                if it in mem:\n                    return True\n            return False")]),
 ('helper_method', 'same', [(B, "    def __getitem__(self, k: Hashable) -> Any:", "    def _resolve(self, k):\n        return keySearch(self, k)\n\n    def __getitem__(self, k: Hashable) -> Any:"), (B, "        k = keySearch(self, k)\n        return super().pop(k, *args)", "        return super().pop(self._resolve(k), *args)")]),
 ('contains_bool', 'same', [(B, "return super().__contains__(keySearch(self, o))", "key = keySearch(self, o)\n        found = super().__contains__(key)\n        return found")]),
]
