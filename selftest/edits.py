MUT = []
REF = []


def M(prop, f, old, new):
    MUT.append((prop, (f, old, new)))


def MM(prop, *edits):
    MUT.append((prop, list(edits)))


def R(name, *edits):
    REF.append((name, list(edits)))


# ---- C03
M('C03', 'cfb.py', "self.data, 100, value)\n        self.mark_modified()", "self.data, 100, value)")
M('C03', 'cfb.py', "self.data, 72, encode_sid(value))", "self.data, 68, encode_sid(value))")
M('C03', 'cfb.py', "struct.pack_into(str('<Q'), self.data, 120, value)", "struct.pack_into(str('<I'), self.data, 120, value)")
M('C03', 'cfb.py', "struct.pack_into(str('<I'), self.data, 116, encode_sid(value))", "struct.pack_into(str('<I'), self.data, 116, value or 0)")
M('C03', 'cfb.py', "        value = unpack_u64le_from(self.data, 120)", "        value = unpack_u32le_from(self.data, 120)")
M('C03', 'cfb.py', "self.data[80:96] = value.bytes_le", "self.data[80:96] = value.bytes")
M('C03', 'cfb.py', "        self._name = value\n        self.data", "        self.data")
M('C03', 'cfb.py', "min(name_size+2, 64)", "min(name_size, 64)")
M('C03', 'cfb.py', "        if value:\n            self.data[67] = 0x00\n        else:\n            self.data[67] = 0x01", "        if value:\n            self.data[67] = 0x01\n        else:\n            self.data[67] = 0x00")
M('C03', 'cfb.py', "        self.data[66] = t\n        self.mark_modified()", "        self.mark_modified()\n        self.data[66] = t")
M('C03', 'cfb.py', "        if self.dir_id is None:\n            return\n\n        self.storage.modified", "        if not self.dir_id:\n            return\n\n        self.storage.modified")

M('C03', 'utils.py', "value += buffer[offset+2] << 16\n    value += buffer[offset+3] << 24\n    value += buffer[offset+4] << 32", "value += buffer[offset+2] << 16\n    value += buffer[offset+3] << 24\n    value += buffer[offset+4] << 31")
M('C03', 'cfb.py', "        for dir_id in sorted(self.modified):\n            entry = self.modified[dir_id]\n", "        for dir_id in sorted(self.modified):\n            entry = self.modified[dir_id]\n            if entry.type == 'empty':\n                continue\n")

M('C03', 'cfb.py', "        f = self.f\n        for dir_id in sorted(self.modified):", "        f = self.f\n        modified, self.modified = self.modified, {}\n        for dir_id in sorted(self.modified):")
M('C03', 'utils.py', "if sid in (0xFFFFFFFF,)", "if sid in (0xFFFFFFFE,)")
R('entry pack helper', ('cfb.py', "        struct.pack_into(str('<Q'), self.data, 100, value)\n        self.mark_modified()", "        self._put('<Q', 100, value)"),
  ('cfb.py', "    def mark_modified(self):", "    def _put(self, fmt, offset, value):\n        struct.pack_into(str(fmt), self.data, offset, value)\n        self.mark_modified()\n\n    def mark_modified(self):"))
R('getter struct', ('cfb.py', "        value = unpack_u64le_from(self.data, 120)\n        return value", "        return struct.unpack_from(str('<Q'), self.data, 120)[0]"))
R('sid inline', ('cfb.py', "self.data, 72, encode_sid(value))", "self.data, 72, 0xFFFFFFFF if value is None else value)"))
R('name pad', ('cfb.py', "        self.data[:name_size] = name_data\n        pad = 64 - name_size\n        for i in range(pad):\n            self.data[name_size +i] = 0\n", "        self.data[0:64] = name_data.ljust(64, b'\\0')\n"))
R('mark positive', ('cfb.py', "        if self.storage.mode in ('r', 'rb'):\n            return\n\n        if self.dir_id is None:\n            return\n\n        self.storage.modified[self.dir_id] = self\n        if len(self.storage.modified) > 128:\n            self.storage.write_modified_dir_entries()\n",
 "        storage = self.storage\n        if storage.mode not in ('r', 'rb') and self.dir_id is not None:\n            storage.modified[self.dir_id] = self\n            if len(storage.modified) > 128:\n                storage.write_modified_dir_entries()\n"))
R('color dict', ('cfb.py', "        if self.data[67] == 0x01:\n            return False\n        return True", "        return self.data[67] != 0x01"))

# ---- C04
M('C04', 'cfb.py', "        write_u16le(f, self.minor_version)\n        write_u16le(f, self.major_version)", "        write_u16le(f, self.major_version)\n        write_u16le(f, self.minor_version)")
M('C04', 'cfb.py', "        write_u32le(f, self.minifat_sector_count)", "        write_u32le(f, self.minifat_sector_start)")
M('C04', 'cfb.py', "        write_u32le(f, self.transaction_signature)", "        write_u16le(f, self.transaction_signature)")
M('C04', 'cfb.py', "        self.dir_sector_count += 1\n", "")
M('C04', 'cfb.py', "        self.fat_sector_count += 1\n", "")
M('C04', 'cfb.py', "            self.minifat_sector_count += 1\n", "")
M('C04', 'cfb.py', "                self.difat_sector_count += 1\n", "")
M('C04', 'cfb.py', "            difat[-1] = ENDOFCHAIN", "            difat[-1] == ENDOFCHAIN")
M('C04', 'cfb.py', "            for i, sid in enumerate(item[:-1]):", "            for i, sid in enumerate(item):")
M('C04', 'cfb.py', "            t+=1\n", "")
M('C04', 'cfb.py', "            start = i * element_count\n            end = start + element_count\n            f.write(fat_table_struct.pack(*self.fat[start:end]))", "            start = i * element_count\n            end = start + element_count\n            f.write(fat_table_struct.pack(*self.fat[start:end - 1] + self.fat[:1]))")
M('C04', 'cfb.py', "f.write(fat_table_struct.pack(*self.minifat[start:end]))", "f.write(fat_table_struct.pack(*self.fat[start:end]))")
M('C04', 'cfb.py', "            sid = table[-1]", "            sid = table[-2]")
M('C04', 'cfb.py', "            self.fat[new_difat_sect] = DIFSECT", "            self.fat[new_difat_sect] = FATSECT")
M('C04', 'cfb.py', "        self.difat[difat_table][difat_index] = new_fat_sect", "        self.difat[difat_table][difat_index] = new_fat_sect + 1")
M('C04', 'cfb.py', "                self.difat[-1][-1] = new_difat_sect\n", "                self.difat_sector_start = new_difat_sect\n")
M('C04', 'cfb.py', "            pos = (sid + 1) * self.sector_size\n            logging.debug(\"writing difat", "            pos = sid * self.sector_size\n            logging.debug(\"writing difat")
M('C04', 'utils.py', 'def write_u32le(f, value):\n    return f.write(pack(b"<I", value))', 'def write_u32le(f, value):\n    return f.write(pack(b"<i", value))')
M('C04', 'cfb.py', "write_u16le(f, int(math.log(self.sector_size, 2)))", "write_u16le(f, self.sector_size)")
M('C04', 'cfb.py', "        for i in range(109):\n            item = read_u32le(f)\n            self.difat[0]", "        for i in range(108):\n            item = read_u32le(f)\n            self.difat[0]")
R('header struct', ('cfb.py', """        write_u32le(f, self.dir_sector_count)
        write_u32le(f, self.fat_sector_count)
        write_u32le(f, self.dir_sector_start)
        write_u32le(f, self.transaction_signature)
        write_u32le(f, self.min_stream_max_size)
""", """        f.write(struct.pack(str('<5I'), self.dir_sector_count, self.fat_sector_count,
                            self.dir_sector_start, self.transaction_signature, self.min_stream_max_size))
"""))
R('write_fat helper', ('cfb.py', "            f.seek((sid + 1) *  self.sector_size)\n            start = i * element_count\n            end = start + element_count\n            f.write(fat_table_struct.pack(*self.fat[start:end]))", "            self._put_table(sid, i, fat_table_struct, self.fat)"),
  ('cfb.py', "    def read_minifat(self):", "    def _put_table(self, sid, n, fmt, table):\n        per = self.sector_size // 4\n        self.f.seek(self.sector_size + sid * self.sector_size)\n        self.f.write(fmt.pack(*table[n * per:(n + 1) * per]))\n\n    def read_minifat(self):"))
R('header difat helper', ('cfb.py', "        for i in range(109):\n            write_u32le(f, self.difat[0][i])\n\n        for i in range(self.sector_size - f.tell()):\n            f.write(b'\\0')\n\n\n", "        self._write_header_difat()\n\n"),
  ('cfb.py', "    def read_header(self):", "    def _write_header_difat(self):\n        f = self.f\n        for entry in self.difat[0]:\n            write_u32le(f, entry)\n        f.write(b'\\0' * (self.sector_size - f.tell()))\n\n    def read_header(self):"))
R('comprehension fat sectors', ('cfb.py', """        for t, i, sid in self.iter_difat():
            sector_type = fat_sector_types.get(sid, sid)
            if not isinstance(sector_type, int):
                continue
            fat_sectors.append(sid)
""", """        fat_sectors = [sid for _, _, sid in self.iter_difat() if sid not in fat_sector_types]
"""))
R('enumerate difat', ('cfb.py', """        t = 1
        for item in self.difat[1:]:
            for i, sid in enumerate(item[:-1]):
                yield t, i, sid
            t+=1
""", """        for t, item in enumerate(self.difat[1:], 1):
            for i, sid in enumerate(item[:-1]):
                yield t, i, sid
"""))

# ---- C07
M('C07', 'cfb.py', "            i = self.fat_freelist.pop(0)", "            i = self.fat_freelist[0]")
M('C07', 'cfb.py', "            i = self.minifat_freelist.pop(0)", "            i = self.fat_freelist.pop(0)")
M('C07', 'cfb.py', "        sid = self.next_free_sect()\n        # logging.warning(\"growing", "        sid = self.next_free_minifat_sect()\n        # logging.warning(\"growing")
M('C07', 'cfb.py', "            if i == RANGELOCKSECT and self.sector_size == 4096:\n                self.fat[i] = ENDOFCHAIN\n                logging.warning(\"range lock sector in fat freelist, marking ENDOFCHAIN\")\n                return self.next_free_sect()\n", "")
M('C07', 'cfb.py', "                self.fat[i] = ENDOFCHAIN\n                logging.warning", "                logging.warning")
M('C07', 'cfb.py', "            non_free_sids.add(RANGELOCKSECT)\n", "")
M('C07', 'cfb.py', "non_free_sids = set([new_fat_sect, new_difat_sect])", "non_free_sids = set([new_fat_sect])")
M('C07', 'cfb.py', "non_free_sids = set([new_fat_sect, new_difat_sect])", "non_free_sids = set([new_difat_sect])")
M('C07', 'cfb.py', "        self.minifat_chain.append(sid)\n        self.fat[sid] = ENDOFCHAIN\n", "        self.minifat_chain.append(sid)\n")
M('C07', 'cfb.py', "            self.fat[self.mini_stream_chain[-1]] = sid\n", "")
M('C07', 'cfb.py', "            self.fat[self.mini_stream_chain[-1]] = sid\n", "            self.minifat[self.mini_stream_chain[-1]] = sid\n")
M('C07', 'cfb.py', "            fat[fat_chain[-1]] = sect\n            fat[sect] = ENDOFCHAIN", "            fat[fat_chain[-1]] = sect")
M('C07', 'cfb.py', "            # logging.debug(\"creating new mini sector: %d\" % sect)\n            fat = self.minifat", "            fat = self.fat")
M('C07', 'cfb.py', "            fat_chain = self.get_fat_chain(start_sid, minifat)\n            assert", "            fat_chain = self.get_fat_chain(start_sid)\n            assert")
M('C07', 'cfb.py', "                self.minifat_freelist.insert(0, sid)\n            else:\n                self.fat_freelist", "                self.fat_freelist.insert(0, sid)\n            else:\n                self.fat_freelist")
M('C07', 'cfb.py', "            fat[sid] = FREESECT\n            if minifat:", "            if minifat:")
M('C07', 'cfb.py', "            if v == FREESECT:\n                self.minifat_freelist.append(i)", "            if v == ENDOFCHAIN:\n                self.minifat_freelist.append(i)")
M('C07', 'cfb.py', "            if v == FREESECT:\n                self.fat_freelist.append(i)", "            if v >= ENDOFCHAIN:\n                self.fat_freelist.append(i)")
M('C07', 'cfb.py', "        first_dir_id = (len(self.dir_fat_chain) - 1) *", "        first_dir_id = (len(self.dir_fat_chain)) *")
M('C07', 'cfb.py', "        last_dir_id = first_dir_id + (self.sector_size // 128)", "        last_dir_id = first_dir_id + (self.sector_size // 64)")
M('C07', 'cfb.py', "            return self.dir_freelist.pop(0)", "            return self.dir_freelist[0]")
M('C07', 'cfb.py', "        if not self.mini_stream_chain:\n            self.mini_stream_chain = [sid]\n            self.root.sector_id = sid", "        if not self.mini_stream_chain:\n            self.mini_stream_chain = [sid]")
M('C07', 'cfb.py', "            if self.dir.sector_id is None:\n                self.dir.sector_id = sid\n", "            if len(self.fat_chain) == 1 and not minifat:\n                self.dir.sector_id = sid\n")
M('C07', 'cfb.py', "            self.fat_chain.append(sid)\n            if self.dir", "            if self.dir")
R('freelist pop local', ('cfb.py', "            i = self.fat_freelist.pop(0)\n            assert self.fat[i] == FREESECT", "            freelist = self.fat_freelist\n            i = freelist.pop(0)\n            assert self.fat[i] == FREESECT"))
R('free chain order', ('cfb.py', "            fat[sid] = FREESECT\n            if minifat:\n                self.minifat_freelist.insert(0, sid)\n            else:\n                self.fat_freelist.insert(0, sid)\n", "            freelist = self.minifat_freelist if minifat else self.fat_freelist\n            freelist.insert(0, sid)\n            fat[sid] = FREESECT\n"))
R('append table', ('cfb.py', "        if start_sid is None:\n            fat[sect] = ENDOFCHAIN\n        else:\n            fat_chain = self.get_fat_chain(start_sid, minifat)\n            assert fat_chain\n            fat[fat_chain[-1]] = sect\n            fat[sect] = ENDOFCHAIN\n", "        if start_sid is not None:\n            chain = self.get_fat_chain(start_sid, minifat)\n            assert chain\n            tail = chain[-1]\n            fat[tail] = sect\n        fat[sect] = ENDOFCHAIN\n"))
R('growth order', ('cfb.py', "        self.fat_freelist.extend(freelist)\n\n        self.fat[new_fat_sect] = FATSECT\n        self.fat_sector_count += 1\n\n        if not new_difat_sect is None:\n            self.fat[new_difat_sect] = DIFSECT\n", "        self.fat[new_fat_sect] = FATSECT\n        if new_difat_sect is not None:\n            self.fat[new_difat_sect] = DIFSECT\n        self.fat_sector_count += 1\n        for sid in freelist:\n            self.fat_freelist.append(sid)\n"))
R('load comp', ('cfb.py', "        for i,v in enumerate(self.fat):\n            if v == FREESECT:\n                self.fat_freelist.append(i)\n", "        self.fat_freelist.extend(i for i, v in enumerate(self.fat) if v == FREESECT)\n"))
R('dirid', ('cfb.py', "        first_dir_id = (len(self.dir_fat_chain) - 1) * self.sector_size // 128\n        last_dir_id = first_dir_id + (self.sector_size // 128)\n        self.dir_freelist.extend(range(first_dir_id, last_dir_id))\n\n        return self.next_free_dir_id()", "        per_sector = self.sector_size // 128\n        first = (len(self.dir_fat_chain) - 1) * per_sector\n        self.dir_freelist.extend(range(first, first + per_sector))\n        return self.dir_freelist.pop(0)"))
R('minigrow', ('cfb.py', "        if not self.mini_stream_chain:\n            self.mini_stream_chain = [sid]\n            self.root.sector_id = sid\n        else:\n            self.fat[self.mini_stream_chain[-1]] = sid\n            self.mini_stream_chain.append(sid)\n\n        self.fat[sid] = ENDOFCHAIN", "        self.fat[sid] = ENDOFCHAIN\n        chain = self.mini_stream_chain\n        if chain:\n            self.fat[chain[-1]] = sid\n        else:\n            self.root.sector_id = sid\n        chain.append(sid)"))
# ---- C10
M('C10', 'cfb.py', "            self.storage.free_fat_chain(self.dir.sector_id, True)\n", "            self.storage.free_fat_chain(self.dir.sector_id)\n")
M('C10', 'cfb.py', "            self.storage.free_fat_chain(self.dir.sector_id, True)\n", "")
M('C10', 'cfb.py', "            self.storage.free_fat_chain(self.dir.sector_id, is_mini_stream)\n            self.pos = 0", "            self.pos = 0")
M('C10', 'cfb.py', "            self.storage.free_fat_chain(self.dir.sector_id, False)\n", "            self.storage.free_fat_chain(self.dir.sector_id, True)\n")
M('C10', 'cfb.py', "            self.storage.free_fat_chain(self.fat_chain[sector_count], is_mini_stream)\n            fat_table[last_sector_id] = ENDOFCHAIN", "            fat_table[last_sector_id] = ENDOFCHAIN\n            self.storage.free_fat_chain(self.fat_chain[sector_count], is_mini_stream)")
M('C10', 'cfb.py', "            fat_table[last_sector_id] = ENDOFCHAIN\n", "")
M('C10', 'cfb.py', "            last_sector_id = self.fat_chain[sector_count-1]", "            last_sector_id = self.fat_chain[sector_count]")
M('C10', 'cfb.py', "            self.fat_chain = self.fat_chain[:sector_count]\n", "")
M('C10', 'cfb.py', "            self.dir.sector_id = None\n            minifat = False", "            minifat = False")
M('C10', 'cfb.py', "                self.free_fat_chain(item.sector_id, item.byte_size < self.min_stream_max_size)\n                self.free_dir_entry(item)", "                self.free_dir_entry(item)")
M('C10', 'cfb.py', "                self.free_fat_chain(item.sector_id, item.byte_size < self.min_stream_max_size)\n                self.free_dir_entry(item)", "                self.free_fat_chain(item.sector_id, item.byte_size <= self.min_stream_max_size)\n                self.free_dir_entry(item)")
M('C10', 'cfb.py', "                self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)\n                entry.sector_id = None", "                entry.sector_id = None")
M('C10', 'cfb.py', "                self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)\n                entry.sector_id = None\n                entry.byte_size = 0", "                entry.byte_size = 0\n                self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)\n                entry.sector_id = None")
M('C10', 'cfb.py', "            if mode == 'w':\n                logging.debug(\"stream", "            if mode in ('w', 'rw'):\n                logging.debug(\"stream")

# ---- C08
M('C08', 'cfb.py', "            if sid in sector_cache:\n                del sector_cache[sid]\n\n            f.seek(seek_pos)", "            f.seek(seek_pos)")
M('C08', 'cfb.py', "            if sid in sector_cache:\n                del sector_cache[sid]\n\n            f.seek(seek_pos)", "            if is_mini_stream and sid in sector_cache:\n                del sector_cache[sid]\n\n            f.seek(seek_pos)")
M('C08', 'cfb.py', "            if sid in self.sector_cache:\n                del self.sector_cache[sid]\n", "")
M('C08', 'cfb.py', "            if sid in self.sector_cache:\n                del self.sector_cache[sid]\n", "            if dir_id in self.sector_cache:\n                del self.sector_cache[dir_id]\n")
M('C08', 'cfb.py', "            self.sector_cache[sid] = sector_data\n", "            self.sector_cache[pos] = sector_data\n")
M('C08', 'cache.py', "        if not node.empty:\n            del self.data[node.key]\n", "")
M('C08', 'cache.py', "        node.key = key\n        node.value = value\n\n        self.head = node\n        self.data[key] = node", "        node.value = value\n\n        self.head = node\n        self.data[key] = node")
M('C08', 'cache.py', "            node.value = value\n            self.make_first(node)\n            self.head = node\n            return", "            self.make_first(node)\n            self.head = node\n            return")
M('C08', 'cache.py', "        node = self.data.pop(key)\n        node.empty = True", "        node = self.data[key]\n        node.empty = True")
M('C03', 'cfb.py', "            sid = self.dir_fat_chain[chain_index]\n\n            pos = ((sid + 1) *  self.sector_size) + sid_offset\n\n            f.seek(pos)\n            # force", "            sid = self.dir_fat_chain[chain_index]\n            if sid in self.sector_cache:\n                continue\n            pos = ((sid + 1) *  self.sector_size) + sid_offset\n\n            f.seek(pos)\n            # force")
R('cache pop', ('cfb.py', "            if sid in sector_cache:\n                del sector_cache[sid]\n\n            f.seek(seek_pos)\n            f.write(mv[:byte_writeable])", "            f.seek(seek_pos)\n            f.write(mv[:byte_writeable])\n            if sid in sector_cache:\n                del sector_cache[sid]"))
R('cache helper', ('cfb.py', "            # invalidate  sector\n            if sid in self.sector_cache:\n                del self.sector_cache[sid]\n", "            self._forget(sid)\n"), ('cfb.py', "    def write_modified_dir_entries(self):", "    def _forget(self, sid):\n        if sid in self.sector_cache:\n            del self.sector_cache[sid]\n\n    def write_modified_dir_entries(self):"))
R('cache pos helper', ('cfb.py', "            pos = (sid + 1) *  self.sector_size\n            self.f.seek(pos)\n            sector_data = bytearray", "            self.f.seek(self.sector_size + sid * self.sector_size)\n            sector_data = bytearray"))
R('dir entry pos reuse', ('cfb.py', "            stream_pos = entry.dir_id * 128\n            chain_index = stream_pos // self.sector_size\n            sid_offset  = stream_pos % self.sector_size\n            sid = self.dir_fat_chain[chain_index]\n\n            pos = ((sid + 1) *  self.sector_size) + sid_offset\n\n            f.seek(pos)\n            # force", "            sid, sid_offset = self.dir_entry_sid_offset(entry.dir_id)\n            f.seek((sid + 1) * self.sector_size + sid_offset)\n            # force"))
# ---- C11
M('C11', 'cfb.py', "                mini_fat_index += 1\n                mini_sector_offset = 0\n\n            else:", "                mini_fat_index += 1\n\n            else:")
M('C11', 'cfb.py', "                index += 1\n                sid_offset = 0\n", "                index += 1\n")
M('C11', 'cfb.py', "                index += 1\n                start_offset = 0\n", "                start_offset = 0\n")
M('C11', 'cfb.py', "                seek_pos = ((sid + 1) *  full_sector_size) + sid_offset\n\n                mini_fat_index", "                seek_pos = (sid *  full_sector_size) + sid_offset\n\n                mini_fat_index")
M('C11', 'cfb.py', "                if sid != prev_sid:\n                    sector_data = read_sector_data(sid)\n                    prev_sid = sid\n", "                if index != prev_sid:\n                    sector_data = read_sector_data(sid)\n                    prev_sid = sid\n")
M('C11', 'cfb.py', "                index      = mini_stream_pos // full_sector_size\n                sid_offset = mini_stream_pos  % full_sector_size\n\n                sid = mini_stream_chain[index]\n                sector_offset = mini_sector_offset\n\n                mini_sector_offset = 0", "                index      = mini_stream_pos // full_sector_size\n                sid_offset = mini_stream_pos  % full_sector_size\n\n                sid = mini_stream_chain[index]\n                sector_offset = sid_offset\n\n                mini_sector_offset = 0")
M('C11', 'cfb.py', "            byte_writeable = min(len(mv), sector_size - sector_offset)", "            byte_writeable = min(len(mv), full_sector_size - sid_offset)")
M('C11', 'cfb.py', "        return self.dir.byte_size < self.storage.min_stream_max_size", "        return self.dir.byte_size <= self.storage.min_stream_max_size")
M('C11', 'cfb.py', "        if minifat and byte_size >= self.storage.min_stream_max_size:", "        if minifat and byte_size > self.storage.min_stream_max_size:")
M('C11', 'cfb.py', "        sector_count = (byte_size + sector_size - 1) // sector_size", "        sector_count = byte_size // sector_size")
M('C11', 'cfb.py', "        sector_count = (size + sector_size - 1) // sector_size", "        sector_count = (size + full_sector_size - 1) // sector_size")
M('C11', 'cfb.py', "            minifat = False\n            self.fat_chain = []", "            self.fat_chain = []")
M('C11', 'cfb.py', "            bytes_to_read = max(0, min(n, byte_size - self.tell()))", "            bytes_to_read = max(0, min(n, byte_size))")
M('C11', 'cfb.py', "            offset = self.dir.byte_size + offset\n", "            offset = self.dir.byte_size - offset\n")
M('C11', 'cfb.py', "            self.pos += byte_writeable\n", "            self.pos += sector_size\n")
M('C11', 'cfb.py', "            sid_offset  = stream_pos % self.sector_size\n            sid = self.dir_fat_chain[chain_index]\n\n            pos = ((sid + 1) *  self.sector_size) + sid_offset\n\n            f.seek(pos)\n            f.write(empty_dir)", "            sid_offset  = dir_id % self.sector_size\n            sid = self.dir_fat_chain[chain_index]\n\n            pos = ((sid + 1) *  self.sector_size) + sid_offset\n\n            f.seek(pos)\n            f.write(empty_dir)")
M('C11', 'cfb.py', "        self.dir.byte_size = size\n        self.pos = min", "        self.dir.byte_size = sector_count * sector_size\n        self.pos = min")
M('C11', 'cfb.py', "            realloc_data = self.read(size)", "            realloc_data = self.read(orig_pos)")
R('write divmod', ('cfb.py', "                index      = mini_stream_pos // full_sector_size\n                sid_offset = mini_stream_pos  % full_sector_size\n\n                sid = mini_stream_chain[index]\n\n                sector_offset = mini_sector_offset\n                seek_pos", "                index, sid_offset = divmod(mini_stream_pos, full_sector_size)\n                sid = mini_stream_chain[index]\n                sector_offset = mini_sector_offset\n                seek_pos"))
R('read while count', ('cfb.py', "        while bytes_to_read > 0:\n", "        while bytes_to_read:\n"))
R('write recompute', ('cfb.py', "            if is_mini_stream:\n                mini_stream_sid = self.fat_chain[mini_fat_index]\n                mini_stream_pos  =", "            if is_mini_stream:\n                mini_fat_index, mini_sector_offset = divmod(self.pos, mini_sector_size)\n                mini_stream_sid = self.fat_chain[mini_fat_index]\n                mini_stream_pos  ="))
R('alloc ceil', ('cfb.py', "        sector_count = (byte_size + sector_size - 1) // sector_size", "        sector_count = -(-byte_size // sector_size)"))
R('read index write', ('cfb.py', "            mv[:bytes_can_read] = sector_data[sid_offset:sid_offset+bytes_can_read]\n\n            self.pos += bytes_can_read\n            mv = mv[bytes_can_read:]\n", "            end = sid_offset + bytes_can_read\n            mv[0:bytes_can_read] = sector_data[sid_offset:end]\n            mv = mv[bytes_can_read:]\n            self.pos = self.pos + bytes_can_read\n"))
R('seek order', ('cfb.py', "        if whence == io.SEEK_CUR:\n            offset = self.tell() + offset\n        elif whence == io.SEEK_END:\n            offset = self.dir.byte_size + offset\n", "        if whence == io.SEEK_END:\n            offset += self.dir.byte_size\n        elif whence == io.SEEK_CUR:\n            offset += self.pos\n"))
R('mini helper', ('cfb.py', "        minifat = self.is_mini_stream()\n        realloc_data = None", "        limit = self.storage.min_stream_max_size\n        minifat = self.dir.type != 'root storage' and self.dir.byte_size < limit\n        realloc_data = None"))
R('early continue', ('cfb.py', "        if self.dir_id is None:\n            return\n\n        self.storage.modified", "        if not self.dir_id is not None:\n            return None\n\n        self.storage.modified"))

# ---- C09
M('C09', 'cfb.py', "        if self.exists(path):\n            raise ValueError(\"%s already exists\" % path)\n\n        dirname", "        dirname")
M('C09', 'cfb.py', "        if not root.type in ('storage', 'root storage'):\n            raise ValueError(\"can not add entry to non storage type\")\n", "")
M('C09', 'cfb.py', "        dir_id = self.next_free_dir_id()\n        logging.debug(\"next dir id %d\" % dir_id)\n", "")
M('C09', 'cfb.py', "        root.add_child(entry)\n        self.dir_cache[dir_id] = entry\n", "        root.add_child(entry)\n")
M('C09', 'cfb.py', "        entry.name = basename\n        entry.type = dir_type\n        entry.class_id = class_id\n\n        root.add_child(entry)\n", "        entry.type = dir_type\n        entry.class_id = class_id\n\n        root.add_child(entry)\n        entry.name = basename\n")
M('C09', 'cfb.py', "        if entry.type == 'root storage':\n            raise ValueError(\"can no remove root entry\")\n", "")
M('C09', 'cfb.py', "        if entry.type == \"storage\" and not entry.child_id is None:\n            raise ValueError(\"storage contains children\")\n", "")
M('C09', 'cfb.py', "        entry.pop()\n\n        # remove stream data\n        if entry.type == \"stream\":\n            self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)\n\n        self.free_dir_entry(entry)", "        # remove stream data\n        if entry.type == \"stream\":\n            self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)\n\n        self.free_dir_entry(entry)\n        entry.pop()\n")
M('C09', 'cfb.py', "        if self.exists(dst):\n            raise ValueError(\"dst path already exist: %s\" % dst)\n", "")
M('C09', 'cfb.py', "        if not dst_entry.isdir():\n            raise ValueError(\"dst dirname cannot be stream: %s\" % dst_dirname)\n", "")
M('C09', 'cfb.py', "        src_entry.pop()\n\n        src_entry.parent = None\n        src_entry.name = dst_basename\n", "        src_entry.name = dst_basename\n        src_entry.pop()\n\n        src_entry.parent = None\n")
M('C09', 'cfb.py', "        dst_entry.add_child(src_entry)\n\n        self.children", "        dst_entry.add_child(src_entry)\n        src_entry.name = dst_basename\n\n        self.children")
M('C09', 'cfb.py', "            if not entry.isfile():\n                raise ValueError(\"can only open stream type DirEntry's\")\n\n", "")
M('C09', 'cfb.py', "            if mode == 'r':\n                raise ValueError(\"stream does not exists: %s\" % path)\n", "")
M('C09', 'cfb.py', "        if self.dir_id in self.storage.children_cache:\n            self.storage.children_cache[self.dir_id][entry.name] = entry\n", "")
M('C09', 'cfb.py', "            self.storage.children_cache[self.dir_id][entry.name] = entry\n", "            self.storage.children_cache[entry.dir_id][entry.name] = entry\n")
M('C09', 'cfb.py', "        entry.parent = self\n        entry.color", "        entry.color")
M('C09', 'cfb.py', "        # clear from cache\n        if self.parent.dir_id in self.storage.children_cache:\n            del self.storage.children_cache[self.parent.dir_id][entry.name]\n", "")
M('C09', 'cfb.py', "        self.left_id = None\n        self.right_id = None\n        self.parent = None\n\n    def reb", "        self.left_id = None\n        self.parent = None\n\n    def reb")
M('C09', 'cfb.py', "        self.parent.child_id = head.right_id\n        if", "        if")
M('C09', 'cfb.py', "        entry.parent = parent\n        self.dir_cache[dir_id] = entry\n", "        entry.parent = parent\n")
M('C09', 'cfb.py', "        entry.parent = parent\n        self.dir_cache[dir_id] = entry\n", "        self.dir_cache[dir_id] = entry\n")
M('C09', 'cfb.py', "read_dir_entry(self.right_id, self.parent)", "read_dir_entry(self.right_id, self)")
M('C09', 'cfb.py', "read_dir_entry(self.child_id, self)", "read_dir_entry(self.child_id)")
M('C09', 'cfb.py', "        if index == 0:\n            self.left_id = dir_id", "        if index:\n            self.left_id = dir_id")
M('C09', 'cfb.py', "            right =  current.right()\n            if right:\n                stack.append(right)\n", "            right =  current.right()\n            if right and not left:\n                stack.append(right)\n")
M('C09', 'cfb.py', "        self.children_cache[root.dir_id] = result\n        return result\n\n    def find", "        self.children_cache[child.dir_id] = result\n        return result\n\n    def find")
M('C09', 'cfb.py', "        if entry.dir_id in self.children_cache:\n            del self.children_cache[entry.dir_id]\n", "")
M('C09', 'cfb.py', "        if entry.dir_id in self.dir_cache:\n            del self.dir_cache[entry.dir_id]\n", "")
M('C09', 'cfb.py', "        if entry.dir_id in self.modified:\n            del self.modified[entry.dir_id]\n", "")
M('C09', 'cfb.py', "            # compare not case senstive\n            return self.name.upper() < other.upper()", "            return self.name < other")
M('C09', 'cfb.py', "            # shorter names are always less then\n            return len(self.name) < len(other)", "            return self.name.upper() < other.upper()")
M('C09', 'cfb.py', "        direction = 0 if entry < node else 1\n        parent = node\n        node = node[direction]\n        count += 1\n\n    raise", "        direction = 0 if node < entry else 1\n        parent = node\n        node = node[direction]\n        count += 1\n\n    raise")
M('C09', 'cfb.py', "            last = direction\n            direction = 0 if entry < node else 1", "            last = direction\n            direction = 1 if entry < node else 0")
M('C09', 'cfb.py', "            direction = int(node < entry)", "            direction = int(entry < node)")
M('C09', 'cfb.py', "        if index == 0:\n            self.left_id = dir_id\n        else:\n            self.right_id = dir_id", "        if index == 0:\n            self.left_id = dir_id\n        elif dir_id is not None:\n            self.right_id = dir_id")
R('dir guards reordered', ('cfb.py', "        if entry.type == 'root storage':\n            raise ValueError(\"can no remove root entry\")\n\n        if entry.type == \"storage\" and not entry.child_id is None:\n            raise ValueError(\"storage contains children\")\n", "        if entry.type == \"storage\":\n            if entry.child_id is not None:\n                raise ValueError(\"storage contains children\")\n        elif entry.type == 'root storage':\n            raise ValueError(\"can no remove root entry\")\n"))
R('dir create helper', ('cfb.py', "        root = self.find(dirname)\n\n        if root is None:\n            raise ValueError(\"parent dirname does not exist: %s\" % dirname)\n\n        if not root.type in ('storage', 'root storage'):\n            raise ValueError(\"can not add entry to non storage type\")\n", "        root = self._parent_for(dirname)\n"),
  ('cfb.py', "    def free_dir_entry(self, entry):", "    def _parent_for(self, dirname):\n        root = self.find(dirname)\n        if root is None:\n            raise ValueError(\"parent dirname does not exist: %s\" % dirname)\n        if not root.isdir():\n            raise ValueError(\"can not add entry to non storage type\")\n        return root\n\n    def free_dir_entry(self, entry):"))
R('dir caches pop', ('cfb.py', "        if entry.dir_id in self.dir_cache:\n            del self.dir_cache[entry.dir_id]\n\n        if entry.dir_id in self.children_cache:\n            del self.children_cache[entry.dir_id]\n\n        if entry.dir_id in self.modified:\n            del self.modified[entry.dir_id]\n", "        for cache in (self.dir_cache, self.children_cache, self.modified):\n            if entry.dir_id in cache:\n                del cache[entry.dir_id]\n"))
R('dir caches pop2', ('cfb.py', "        if entry.dir_id in self.dir_cache:\n            del self.dir_cache[entry.dir_id]\n\n", "        self.dir_cache.pop(entry.dir_id, None)\n"), ('cfb.py', "        if entry.dir_id in self.modified:\n            del self.modified[entry.dir_id]\n", "        self.modified.pop(entry.dir_id, None)\n"))
R('dir add_child local', ('cfb.py', "        if self.dir_id in self.storage.children_cache:\n            self.storage.children_cache[self.dir_id][entry.name] = entry\n", "        cache = self.storage.children_cache\n        if self.dir_id in cache:\n            listing = cache[self.dir_id]\n            listing[entry.name] = entry\n"))
R('dir list extend', ('cfb.py', "            left = current.left()\n            if left:\n                stack.append(left)\n            right =  current.right()\n            if right:\n                stack.append(right)\n", "            for sibling in (current.left(), current.right()):\n                if sibling is not None:\n                    stack.append(sibling)\n"))
R('dir siblings helper', ('cfb.py', "    def left(self):\n        return self.storage.read_dir_entry(self.left_id, self.parent)\n\n    def right(self):\n        return self.storage.read_dir_entry(self.right_id, self.parent)\n", "    def _sibling(self, dir_id):\n        return self.storage.read_dir_entry(dir_id, self.parent)\n\n    def left(self):\n        return self._sibling(self.left_id)\n\n    def right(self):\n        return self._sibling(self.right_id)\n"))
R('dir lt key', ('cfb.py', "        if len(self.name) == len(other):\n            # compare not case senstive\n            return self.name.upper() < other.upper()\n        else:\n            # shorter names are always less then\n            return len(self.name) < len(other)", "        name = self.name\n        if len(name) != len(other):\n            return len(name) < len(other)\n        return name.upper() < other.upper()"))
R('dir lt tuple', ('cfb.py', "        if len(self.name) == len(other):\n            # compare not case senstive\n            return self.name.upper() < other.upper()\n        else:\n            # shorter names are always less then\n            return len(self.name) < len(other)", "        name = self.name\n        return (len(name), name.upper()) < (len(other), other.upper())"))
R('dir open flat', ('cfb.py', "            if mode == 'r':\n                raise ValueError(\"stream does not exists: %s\" % path)\n            entry = self.create_dir_entry(path, 'stream', None)\n\n        else:\n            if not entry.isfile():\n                raise ValueError(\"can only open stream type DirEntry's\")\n\n            if mode == 'w':\n", "            if mode == 'r':\n                raise ValueError(\"stream does not exists: %s\" % path)\n            entry = self.create_dir_entry(path, dir_type='stream')\n\n        elif not entry.isfile():\n            raise ValueError(\"can only open stream type DirEntry's\")\n        else:\n            if mode == 'w':\n"))
# ---- C22
M('C22', 'cfb.py', "                    if a == b:\n                        raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))\n", "")
M('C22', 'cfb.py', "                    if a == b:\n", "                    if a == start_sid:\n")
M('C22', 'cfb.py', "            if count > max_dirs_entries:\n                raise CompoundFileBinaryError(\"corrupt folder structure\")\n", "")
M('C22', 'cfb.py', "            count += 1\n\n            if count > max_dirs", "            if count > max_dirs")
M('C22', 'cfb.py', "        while sectors_left:\n", "        while sid != ENDOFCHAIN:\n")
M('C22', 'cfb.py', "            sid = difat[-1]\n            logging.debug(\"next difat: %d\" % sid)\n            sectors_left -= 1", "            sid = difat[-1]\n            logging.debug(\"next difat: %d\" % sid)")
M('C22', 'cfb.py', "        if self.magic != b'\\xd0\\xcf\\x11\\xe0\\xa1\\xb1\\x1a\\xe1':\n            raise CompoundFileBinaryError(\"invalid file magic signature: {}\".format([self.magic]))\n", "")
M('C22', 'cfb.py', "        if not self.sector_size in (4096, 512):\n", "        if not self.sector_size in (4096, 2048, 512):\n")
M('C22', 'cfb.py', "        if self.mini_stream_sector_size != 64:\n", "        if self.mini_stream_sector_size > 4096:\n")
M('C22', 'cfb.py', "    while node is not None and count < max_depth:\n        if node is entry:\n            return parent\n", "    while node is not None:\n        if node is entry:\n            return parent\n")
M('C22', 'cfb.py', "        if count >= max_dirs_entries:\n            raise CompoundFileBinaryError(\"max dir entries limit reached\")\n\n        # update", "        # update")
M('C22', 'cfb.py', "        while count < max_dirs_entries:\n\n            if node is None", "        while True:\n\n            if node is None")
M('C22', 'core.py', "        if byte_order != 0x4c:\n", "        if byte_order not in (0x4c, 0x42):\n")
R('chain visited', ('cfb.py', """        while b != ENDOFCHAIN:
            sectors.append(b)
            b = fat[b]
            if a != ENDOFCHAIN:
                a = fat[a]
                if a != ENDOFCHAIN:
                    a = fat[a]
                    if a == b:
                        raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))
""", """        seen = set()
        while b != ENDOFCHAIN:
            if b in seen:
                raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))
            seen.add(b)
            sectors.append(b)
            b = fat[b]
"""))
R('chain bounded', ('cfb.py', """            sectors.append(b)
            b = fat[b]
            if a != ENDOFCHAIN:
                a = fat[a]
                if a != ENDOFCHAIN:
                    a = fat[a]
                    if a == b:
                        raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))
""", """            if len(sectors) > len(fat):
                raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))
            sectors.append(b)
            b = fat[b]
"""))
R('difat for', ('cfb.py', "        while sectors_left:\n", "        while sectors_left > 0:\n"))
R('header checks', ('cfb.py', "        if not self.sector_size in (4096, 512):\n", "        if self.sector_size != 4096 and self.sector_size != 512:\n"))
R('byte order flip', ('cfb.py', "        if byte_order == 0xFFFE:\n            self.byte_order = 'le'\n        else:\n            raise NotImplementedError(\"endian format:0x%X not supported\" % byte_order)\n", "        if byte_order != 0xFFFE:\n            raise NotImplementedError(\"endian format:0x%X not supported\" % byte_order)\n        self.byte_order = 'le'\n"))
R('props order', ('core.py', "        if byte_order != 0x4c:\n", "        if not byte_order == 0x4c:\n"))
R('find parent for', ('cfb.py', "    while node is not None and count < max_depth:\n        if node is entry:\n            return parent\n\n        direction = 0 if entry < node else 1\n        parent = node\n        node = node[direction]\n        count += 1\n\n    raise", "    for _ in range(max_depth):\n        if node is None:\n            break\n        if node is entry:\n            return parent\n\n        direction = 0 if entry < node else 1\n        parent = node\n        node = node[direction]\n\n    raise"))

# ---- C05
VEC_W = "            count = len(self.references)\n            write_u32le(f, count)\n            write_u32le(f, self.next_free_key)\n            write_u32le(f, self.last_free_key)\n\n            for local_key in self.references:\n                write_u32le(f, local_key)\n"
M('C05', 'properties.py', VEC_W, VEC_W.replace("self.next_free_key)\n            write_u32le(f, self.last_free_key)", "self.last_free_key)\n            write_u32le(f, self.next_free_key)"))
M('C05', 'properties.py', VEC_W, VEC_W.replace("write_u32le(f, local_key)", "write_u16le(f, local_key)"))
M('C05', 'properties.py', VEC_W, VEC_W.replace("write_u32le(f, self.next_free_key)", "write_u32le(f, count)"))
SET_W = "            write_u16le(f, self.key_pid)\n            write_u8(f, self.key_size)\n\n            for key, local_key in self.references.items():\n                write_u32le(f, local_key)\n                write_u32le(f, 1)\n                f.write(key.bytes_le)\n"
M('C05', 'properties.py', SET_W, SET_W.replace("key.bytes_le", "key.bytes"))
M('C05', 'properties.py', SET_W, SET_W.replace("                write_u32le(f, local_key)\n                write_u32le(f, 1)\n", "                write_u32le(f, 1)\n                write_u32le(f, local_key)\n"))
M('C05', 'properties.py', SET_W, SET_W.replace("            write_u16le(f, self.key_pid)\n            write_u8(f, self.key_size)\n", "            write_u8(f, self.key_size)\n            write_u16le(f, self.key_pid)\n"))
M('C05', 'properties.py', "                local_key = index_data[index + 0]\n                ref_count = index_data[index + 1]", "                local_key = index_data[index + 1]\n                ref_count = index_data[index + 0]")
M('C05', 'properties.py', "                    key = AUID(bytes_le=key)\n", "                    key = AUID(bytes_be=key)\n")
M('C05', 'properties.py', "                self.ref = key = MobID(bytes_le=f.read(self.key_size))", "                self.ref = key = MobID(bytes_le=f.read(16))")
M('C05', 'properties.py', "            write_u16le(f, self.weakref_index)\n            write_u16le(f, self.key_pid)\n            write_u8(f, key_size)\n", "            write_u16le(f, self.key_pid)\n            write_u16le(f, self.weakref_index)\n            write_u8(f, key_size)\n")
M('C05', 'properties.py', "            ref = self.ref.bytes_le\n", "            ref = self.ref.bytes\n")
M('C05', 'properties.py', "            for item in self.references:\n                f.write(item.bytes_le)\n\n            s.write(f.getvalue())\n            s.truncate()", "            for item in self.references:\n                f.write(item.bytes_le)\n\n            s.write(f.getvalue())")
M('C05', 'properties.py', "            count = read_u32le(f)\n            self.weakref_index = read_u16le(f)", "            count = read_u16le(f)\n            self.weakref_index = read_u16le(f)")
M('C05', 'core.py', "            write_u16le(f, entry_count)\n", "            write_u32le(f, entry_count)\n")
M('C05', 'core.py', "                write_u16le(f, p.format)\n                write_u16le(f, len(p.data))\n", "                write_u16le(f, len(p.data))\n                write_u16le(f, p.format)\n")
M('C05', 'core.py', "            s.write(f.getvalue())\n            s.truncate()\n", "            s.write(f.getvalue())\n")
M('C05', 'core.py', "                byte_size = props[index + 2]", "                byte_size = props[index + 1]")
M('C05', 'core.py', "            if sys.byteorder == 'big':\n                props.byteswap()\n", "")
M('C05', 'core.py', "                                  properties.WeakRefArrayProperty)):\n                    p.write_index()", "                                  properties.WeakRefVectorProperty)):\n                    p.write_index()")
M('C05', 'core.py', "                                  properties.WeakRefArrayProperty)):\n                    p.read_index()", "                                  )):\n                    p.read_index()")
M('C05', 'core.py', "            for p in self.property_entries.values():\n                f.write(p.data)\n", "            for pid, p in sorted(self.property_entries.items()):\n                f.write(p.data)\n")
M('C05', 'file.py', "            pid_count += 1 # null byte\n", "")
M('C05', 'file.py', "            write_u16le(f, 0) # null terminated\n", "")
M('C05', 'file.py', "        write_u16le(f, path_count)\n        write_u32le(f, pid_count)\n", "        write_u32le(f, path_count)\n        write_u16le(f, pid_count)\n")
M('C05', 'file.py', "                    self.weakref_table.append(path)\n                    path = []\n", "                    self.weakref_table.append(path)\n")
M('C05', 'file.py', "        f = self.cfb.open(\"/referenced properties\", 'w')", "        f = self.cfb.open(\"/referenced properties\", 'rw')")
M("C05", "utils.py", "data.encode(\"utf-16le\") + b", "data.encode(\"utf-16\") + b")
M("C05", "utils.py", "utf-16le\") + b\"\\x00\\x00\"", "utf-16le\")")
M('C05', 'properties.py', "        return \"%s{%x}\" % (self.index_name, self.references[key])", "        return \"%s{%d}\" % (self.index_name, self.references[key])")
M('C05', 'properties.py', "decode_utf16le(self.data[1:])", "decode_utf16le(self.data[2:])")
M('C05', 'properties.py', "index_name = self.index_name + \" index\"", "index_name = self.index_name + \"index\"")
R('c05 vec pack', ('properties.py', VEC_W, "            count = len(self.references)\n            f.write(struct.pack(str('<III'), count, self.next_free_key, self.last_free_key))\n            f.write(struct.pack(str('<%dI' % count), *self.references))\n"))
R('c05 vec header helper', ('properties.py', VEC_W, "            self._index_head(f)\n            for local_key in self.references:\n                write_u32le(f, local_key)\n"),
  ('properties.py', "    @property\n    def ref_classdef(self):\n        return self.typedef.element_typedef.ref_classdef\n", "    def _index_head(self, f):\n        write_u32le(f, len(self.references))\n        write_u32le(f, self.next_free_key)\n        write_u32le(f, self.last_free_key)\n\n    @property\n    def ref_classdef(self):\n        return self.typedef.element_typedef.ref_classdef\n"))
R('c05 set pack', ('properties.py', SET_W, SET_W.replace("                write_u32le(f, local_key)\n                write_u32le(f, 1)\n                f.write(key.bytes_le)\n", "                f.write(struct.pack(str('<II'), local_key, 1) + key.bytes_le)\n")))
R('c05 set read per field', ('properties.py', """            fmt = ''.join((
                'I', # local_key
                'I', # ref_count
                '%ds' % self.key_size))

            index_fmt  = struct.Struct(str('<' + fmt * count))
            index_data = index_fmt.unpack(f.read())

            for i in range(count):
                index = i * 3

                local_key = index_data[index + 0]
                ref_count = index_data[index + 1]
                key       = index_data[index + 2]
""", """            for i in range(count):
                local_key = read_u32le(f)
                ref_count = read_u32le(f)
                key = f.read(self.key_size)
"""))
R('c05 vec read loop', ('properties.py', "            pack_fmt = str(\"<%dI\" % count)\n            self.references = list(struct.unpack(pack_fmt, f.read(4 * count)))\n", "            self.references = [read_u32le(f) for _ in range(count)]\n"))
R('c05 weak pack', ('properties.py', """        with BytesIO() as f:
            ref = self.ref.bytes_le
            key_size = len(ref)
            assert key_size in (16, 32)

            write_u16le(f, self.weakref_index)
            write_u16le(f, self.key_pid)
            write_u8(f, key_size)
            f.write(ref)
            return f.getvalue()
""", """        ref = self.ref.bytes_le
        key_size = len(ref)
        assert key_size in (16, 32)
        return struct.pack(str('<HHB'), self.weakref_index, self.key_pid, key_size) + ref
"""))
R('c05 weakarray key class', ('properties.py', """                if self.key_size == 16:
                    key = AUID(bytes_le=f.read(self.key_size))
                else:
                    key = key = MobID(bytes_le=f.read(self.key_size))
                self.references.append(key)
""", """                key_class = AUID if self.key_size == 16 else MobID
                self.references.append(key_class(bytes_le=f.read(self.key_size)))
"""))
R('c05 props struct', ('core.py', """            write_u8(f, byte_order)
            write_u8(f, version)
            write_u16le(f, entry_count)
""", "            f.write(P_HEADER_STRUCT.pack(byte_order, version, entry_count))\n"))
R('c05 props entry pack', ('core.py', """                write_u16le(f, p.pid)
                write_u16le(f, p.format)
                write_u16le(f, len(p.data))
""", "                f.write(struct.pack(str('<HHH'), p.pid, p.format, len(p.data)))\n"), ('core.py', "import sys\n", "import sys\nimport struct\n"))
R('c05 props list', ('core.py', "            for p in self.property_entries.values():\n                assert p.data is not None\n", "            entries = list(self.property_entries.values())\n            for p in entries:\n                assert p.data is not None\n"),
  ('core.py', "            for p in self.property_entries.values():\n                f.write(p.data)\n", "            for p in entries:\n                f.write(p.data)\n"))
R('c05 props read struct', ('core.py', """            props = array.array(str('H'))
            if hasattr(props, 'frombytes'):
                props.frombytes(f.read(6 * entry_count))
            else:
                props.fromstring(f.read(6 * entry_count))

            if sys.byteorder == 'big':
                props.byteswap()

            for i in range(entry_count):
                index = i * 3
                pid = props[index + 0]
                format = props[index + 1]
                byte_size = props[index + 2]

""", """            headers = [(read_u16le(f), read_u16le(f), read_u16le(f)) for i in range(entry_count)]
            for pid, format, byte_size in headers:
"""), ('core.py', "import sys\n", "import sys\nfrom .utils import read_u16le\n"))
R('c05 reftable count', ('file.py', """        pid_count = 0
        for path in self.weakref_table:
            pid_count += len(path)
            pid_count += 1 # null byte
""", "        pid_count = sum(len(path) + 1 for path in self.weakref_table)\n"))
R('c05 reftable read', ('file.py', """                if pid != 0:
                    path.append(pid)
                else:
                    self.weakref_table.append(path)
                    path = []
""", """                if pid == 0:
                    self.weakref_table.append(path)
                    path = []
                    continue
                path.append(pid)
"""))
R('c05 index tuple const', ('core.py', """                if isinstance(p, (properties.StrongRefSetProperty,
                                  properties.StrongRefVectorProperty,
                                  properties.WeakRefArrayProperty)):
                    p.write_index()""", "                if hasattr(p, 'write_index'):\n                    p.write_index()"))
M('C05', 'properties.py', """                if self.key_size == 16:
                    key = AUID(bytes_le=f.read(self.key_size))
                else:
                    key = key = MobID(bytes_le=f.read(self.key_size))
                self.references.append(key)
""", """                key = AUID(bytes_le=f.read(self.key_size))
                self.references.append(key)
""")
M('C04', 'cfb.py', "                self.difat[-1][-1] = new_difat_sect\n", "                self.difat[1][-1] = new_difat_sect\n")
R('truncate order', ('cfb.py', """            self.storage.free_fat_chain(self.dir.sector_id, is_mini_stream)
            self.pos = 0
            self.dir.sector_id = None
            self.dir.byte_size = 0
            self.fat_chain = []
""", """            self.pos = 0
            self.dir.byte_size = 0
            self.fat_chain = []
            self.storage.free_fat_chain(self.dir.sector_id, is_mini_stream)
            self.dir.sector_id = None
"""))

# ---- C06
M('C06', 'cfb.py', "        self.write_minifat()\n        self.write_dir_entries()", "        self.write_dir_entries()")
M('C06', 'cfb.py', "        self.write_fat()\n        self.write_minifat()\n        self.write_dir", "        self.write_minifat()\n        self.write_dir")
M('C06', 'cfb.py', "        self.write_minifat()\n        self.write_dir_entries()\n", "        self.write_minifat()\n")
MM('C06', ('cfb.py', "            s = Stream(self, self.root, 'rw')\n            s.truncate(mini_stream_byte_size)\n\n        self.write_header()\n", "            self.write_header()\n            s = Stream(self, self.root, 'rw')\n            s.truncate(mini_stream_byte_size)\n        else:\n            self.write_header()\n"))
M('C06', 'cfb.py', "        pos = (last_used_sector_id + 1) *  self.sector_size", "        pos = last_used_sector_id *  self.sector_size")
M('C06', 'cfb.py', "        for i,v in enumerate(reversed(self.fat)):\n            if v != FREESECT:", "        for i,v in enumerate(reversed(self.fat)):\n            if v == FREESECT:")
M('C06', 'cfb.py', "            last_used_sector_id = len(self.minifat) - i\n", "            last_used_sector_id = len(self.minifat) - i - 1\n")
M('C06', 'cfb.py', "        self.f.seek(pos)\n        self.f.truncate()\n", "        self.f.seek(pos)\n        self.f.truncate()\n        self.write_fat()\n")
M('C06', 'file.py', "        if self.mode in (\"wb+\", 'rb+'):\n            if not", "        if self.mode in (\"wb+\",):\n            if not")
M('C06', 'file.py', "            self.write_reference_properties()\n            self.manager.write_objects()", "            self.manager.write_objects()")
M('C06', 'file.py', "        self.save()\n        self.manager.remove_temp()\n        self.cfb.close()", "        self.manager.remove_temp()\n        self.cfb.close()\n        self.save()")
M('C06', 'file.py', "        self.manager.remove_temp()\n        self.cfb.close()", "        self.cfb.close()\n        self.manager.remove_temp()")
M('C06', 'file.py', "        self.cfb.close()\n        self.is_open = False\n        self.f.close()", "        self.f.close()\n        self.cfb.close()\n        self.is_open = False")
M('C06', 'file.py', "        self.cfb.close()\n        self.is_open = False\n        self.f.close()", "        self.cfb.close()\n        self.f.close()")
M('C06', 'file.py', "                obj.write_properties()\n                written.append(path)", "                written.append(path)")
M('C06', 'file.py', "        if (exc_type is None and exc_value is None and traceback is None):\n            self.close()", "        if (exc_type is None and exc_value is None and traceback is None):\n            self.cfb.close()\n            self.f.close()")
R('c06 close split', ('cfb.py', "        self.write_header()\n        self.write_difat()\n        self.write_fat()\n        self.write_minifat()\n        self.write_dir_entries()\n", "        self.write_tables()\n"), ('cfb.py', "    def close(self):\n        if self.mode in", "    def write_tables(self):\n        self.write_dir_entries()\n        self.write_minifat()\n        self.write_fat()\n        self.write_difat()\n        self.write_header()\n\n    def close(self):\n        if self.mode in"))
R('c06 truncate arg', ('cfb.py', "        self.f.seek(pos)\n        self.f.truncate()\n", "        self.f.truncate(pos)\n"))
R('c06 last used loop', ('cfb.py', """        for i,v in enumerate(reversed(self.fat)):
            if v != FREESECT:
                break

        last_used_sector_id = len(self.fat) - i
        pos = (last_used_sector_id + 1) *  self.sector_size""", """        count = len(self.fat)
        while count > 0 and self.fat[count - 1] == FREESECT:
            count -= 1
        pos = (count + 1) *  self.sector_size"""))
R('c06 writeable', ('file.py', "        if self.mode in (\"wb+\", 'rb+'):\n            if not", "        if self.writeable:\n            if not"))
R('c06 guard', ('file.py', """        if self.mode in ("wb+", 'rb+'):
            if not self.is_open:
                raise IOError("file closed")
            self.write_reference_properties()
            self.manager.write_objects()""", """        if self.mode == 'rb':
            return
        if not self.is_open:
            raise IOError("file closed")
        self.write_reference_properties()
        self.manager.write_objects()"""))
R('c06 objects', ('file.py', """        written = []
        for path, obj in self.modified.items():
            try:
                obj.write_properties()
                written.append(path)
            except:
                print("failed to write: %s %s" %  (str(path), str(obj)))
                raise

        # no longer need to be in modified
        for path in written:
            self.modified.pop(path)""", """        for path in list(self.modified):
            obj = self.modified[path]
            try:
                obj.write_properties()
            except:
                print("failed to write: %s %s" %  (str(path), str(obj)))
                raise
            del self.modified[path]"""))

# ---- C01 / C02
P = 'properties.py'
_g = "    @writeonly\n"
for _nm in ("def clear(self):\n        for obj in self:", "def pop(self, index):", "def pop(self, key):", "def insert(self, index, value):", "def __setitem__(self, index, value):",
            "def swap_unique_key(self, old_key, new_key):", "def set_data(self, data):", "def clear(self):\n        self.references = []\n\n"):
    for _p in ('C01', 'C02'):
        if _p == 'C02' and '__setitem__' in _nm:
            continue        # the attached object queues itself; its vector is stored unchanged
        M(_p, P, _g + "    " + _nm, "    " + _nm)
M('C01', P, "        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")\n        result =", "        result =")
M('C01', P, "        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")\n        result = func(self, *args, **kwargs)", "        result = func(self, *args, **kwargs)\n        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")")
M('C01', P, "        if self.parent.root.mode in ('rb', ):\n            return False\n        return True", "        if self.attached and self.parent.root.mode in ('r', ):\n            return False\n        return True")
M('C01', P, "        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")\n\n        self.stream_name", "        self.stream_name")
M('C01', P, "            if not self.writeable:\n                raise AAFPropertyError(\"file readonly\")\n\n            if self.attached:", "            if self.attached:")
M('C01', 'core.py', "            raise AAFPropertyError(\"file readonly\")", "            pass")
M('C01', 'file.py', "        if self.root.mode == 'rb':", "        if self.root.mode == 'r':")
M('C01', 'cfb.py', "        if self.mode in (\"r\", \"rb\"):\n            return\n\n        # calculate", "        if self.mode in (\"r\", \"rb\") and not self.modified:\n            return\n\n        # calculate")
M('C01', 'cfb.py', "        if self.storage.mode in ('r', 'rb'):\n            return\n\n        if self.dir_id", "        if self.dir_id")
M('C02', P, "        result = func(self, *args, **kwargs)\n        self.mark_modified()\n", "        result = func(self, *args, **kwargs)\n        if result is not None:\n            self.mark_modified()\n")
M('C02', P, "        if self.attached:\n            self.parent.root.manager.add_modified(self.parent)", "        if self.attached and self.data is not None:\n            self.parent.root.manager.add_modified(self.parent)")
M('C02', P, "        if self.attached:\n            self.parent.root.manager.add_modified(self.parent)", "        if self.attached:\n            self.parent.root.manager.read_object(self.parent.dir)")
M('C02', P, "        obj.unique_property.mark_modified()\n", "")
M('C02', P, "        self.add_pid_entry()\n        self.mark_modified()\n\n    def open", "        self.add_pid_entry()\n\n    def open")
M('C02', P, "        if not self.pid in self.parent.property_entries:\n            self.parent.property_entries[self.pid] = self\n        return self", "        if self.pid not in self.parent.property_entries and self.attached:\n            self.parent.property_entries[self.pid] = self\n        return self")
M('C02', 'file.py', "        self.modified[path] = obj\n", "        self.modified.pop(path, None)\n")
M('C02', 'file.py', "        self.modified[path] = obj\n", "        self.modified[obj.dir.name] = obj\n")
M('C02', P, "        self.ref = value.unique_key\n        self.data = self.encode()\n        self.add_pid_entry()", "        self.ref = value.unique_key\n        self.data = self.encode()")
M('C02', P, "        for item in values:\n            self.references.append(item.unique_key)\n\n        self.add_pid_entry()", "        for item in values:\n            self.references.append(item.unique_key)\n")
R('explicit guard', (P, "    @writeonly\n    def pop(self, index):\n", "    def pop(self, index):\n        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")\n        obj = self._pop(index)\n        self.mark_modified()\n        return obj\n\n    def _pop(self, index):\n"))
R('guard polarity', (P, "        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")\n        result = func(self, *args, **kwargs)\n        self.mark_modified()\n        return result\n", "        if self.writeable:\n            result = func(self, *args, **kwargs)\n            self.mark_modified()\n            return result\n        raise AAFPropertyError(\"file readonly\")\n"))
R('guard wraps', (P, "def writeonly(func):\n    def func_wrapper", "import functools\n\n\ndef writeonly(func):\n    @functools.wraps(func)\n    def func_wrapper"))
R('guard helper', (P, "        if not self.writeable:\n            raise AAFPropertyError(\"file readonly\")\n        result =", "        check_writeable(self)\n        result ="), (P, "def writeonly(func):", "def check_writeable(prop):\n    if not prop.writeable:\n        raise AAFPropertyError(\"file readonly\")\n\n\ndef writeonly(func):"))
R('writeable expr', (P, "        if self.parent.root.mode in ('rb', ):\n            return False\n        return True", "        return self.parent.root.mode != 'rb'"))
R('mark early return', (P, "        if self.attached:\n            self.parent.root.manager.add_modified(self.parent)", "        obj = self.parent\n        if obj.dir is None:\n            return\n        obj.root.manager.add_modified(obj)"))
R('entry setdefault', (P, "        if not self.pid in self.parent.property_entries:\n            self.parent.property_entries[self.pid] = self\n        return self", "        self.parent.property_entries.setdefault(self.pid, self)\n        return self"))
R('set clear first', (P, "        self.references.pop(key)\n        self.objects.pop(key)\n\n        obj.detach()", "        del self.references[key]\n        del self.objects[key]\n        obj.detach()"))
R('swap in helper', (P, "        obj.unique_property.data = data\n        obj.unique_property.mark_modified()", "        prop = obj.unique_property\n        prop.data = new_key.bytes_le\n        prop.mark_modified()"))
R('vector insert slice', (P, "        self.references.insert(index, self.next_free_key)", "        self.references[index:index] = [self.next_free_key]"))

# ---- C16
M('C16', 'properties.py', "SF_WEAK_OBJECT_REFERENCE_STORED_OBJECT_ID  : WeakRefPropertyId,\n", "")
M('C16', 'properties.py', "SF_WEAK_OBJECT_REFERENCE_SET               : WeakRefSetProperty,", "SF_WEAK_OBJECT_REFERENCE_SET               : WeakRefVectorProperty,")
M('C16', 'properties.py', "SF_WEAK_OBJECT_REFERENCE_VECTOR            : WeakRefVectorProperty,", "SF_WEAK_OBJECT_REFERENCE_VECTOR            : StrongRefVectorProperty,")
M('C16', 'types.py', "        if self.element_typedef.store_format == properties.SF_WEAK_OBJECT_REFERENCE:\n            return properties.SF_WEAK_OBJECT_REFERENCE_VECTOR", "        if self.element_typedef.store_format == properties.SF_WEAK_OBJECT_REFERENCE:\n            return properties.SF_WEAK_OBJECT_REFERENCE_SET")
M('C16', 'types.py', "        elif self.element_typedef.store_format == properties.SF_WEAK_OBJECT_REFERENCE:\n", "        elif self.element_typedef.store_format == properties.SF_WEAK_OBJECT_REFERENCE_VECTOR:\n")
M('C16', 'core.py', "                fmt = propertydef.store_format", "                fmt = properties.SF_DATA")
R('formats get', ('core.py', "property_formats[format](self, pid, format, version)", "property_formats.get(format)(self, pid, format, version)"))
R('formats dict()', ('properties.py', "SF_OPAQUE_STREAM                           : OpaqueStreamProperty\n}", "}\nproperty_formats[SF_OPAQUE_STREAM] = OpaqueStreamProperty"))
R('store_format local', ('types.py', "        if self.element_typedef.store_format == properties.SF_WEAK_OBJECT_REFERENCE:\n            return properties.SF_WEAK_OBJECT_REFERENCE_VECTOR\n        elif self.element_typedef.store_format == properties.SF_STRONG_OBJECT_REFERENCE:",
  "        fmt = self.element_typedef.store_format\n        if fmt == properties.SF_WEAK_OBJECT_REFERENCE:\n            return properties.SF_WEAK_OBJECT_REFERENCE_VECTOR\n        if fmt == properties.SF_STRONG_OBJECT_REFERENCE:"))

# ---- C17
M('C17', 'model/classdefs.py', '0x0203, "05060900', '0x0202, "05060900')
M('C17', 'model/classdefs.py', '"Length"                : ("07020201-0103-0000-060e-2b3401010102", 0x0202, "01012002', '"Length"                : ("07020201-0103-0000-060e-2b3401010102", 0x0202, "01012003')
M('C17', 'model/classdefs.py', '"Attributes"            : ("03010210-0800', '"UserComments"          : ("03010210-0800')
M('C17', 'model/classdefs.py', '"GPITrigger"            : ("0d010101-0101-0700-060e-2b3402060101", "0d010101-0101-0600', '"GPITrigger"            : ("0d010101-0101-0700-060e-2b3402060101", "0d010101-0101-06ff')
M('C17', 'model/classdefs.py', '"Choices"               : ("06010104-0601-0000-060e-2b3401010102", 0x0501, "05060700', '"Choices"               : ("06010104-0601-0000-060e-2b3401010102", 0x0501, "05020800')
M('C17', 'model/classdefs.py', '0x0602, "01100200-0000-0000-060e-2b3401040101", True', '0x0602, "01100200-0000-0000-060e-2b3401040101", False')
M('C17', 'model/typedefs.py', '1, True, ),', '1, False, ),')
M('C17', 'model/typedefs.py', '   2  : "BetacamSPFormat",', '   2  : "BetacamFormat",')
M('C17', 'model/typedefs.py', '   ("0d010301-0101-0100-060e-2b3401010102", "06010107-0700-0000-060e-2b3401010102", )', '   ("0d010301-0101-0100-060e-2b3401010102", "06010107-0800-0000-060e-2b3401010102", )')
M('C17', 'model/typedefs.py', '("05020600-0000-0000-060e-2b3401040101", "0d010101-0101-0300', '("05020600-0000-0000-060e-2b3401040101", "0d010101-0101-0a00')
M('C17', 'model/typedefs.py', '"aafInt16"   : ("01010600', '"aafInt16"   : ("01010500')
M('C17', 'metadict.py', "        self.classdefs_by_name[name]   = c\n", "")
R('tables update', ('model/classdefs.py', '"EdgeCode"              : ("0d010101-0101-0400-060e-2b3402060101", "0d010101-0101-0300-060e-2b3402060101", True, {', '"EdgeCode": ("0d010101-0101-0400-060e-2b3402060101".upper(), "0d010101-0101-0300-060e-2b3402060101", bool(1), {'))
R('tables hex', ('model/classdefs.py', '0x0202, "01012002', '514, "01012002'))

# ---- C18
M('C18', 'misc.py', '0d010101-0101-3e00-060e', '0d010101-0101-3d00-060e')
M('C18', 'components.py', 'AUID("0d010101-0101-0f00-060e', 'AUID("0d010101-0101-0fff-060e')
M('C18', 'mobs.py', "@register_class\nclass CompositionMob", "class CompositionMob")
M('C18', 'mobs.py', "self.root.create.TapeDescriptor()", "self.root.create.TapeDescripter()")
M('C18', 'mxf.py', "self.root.aaf.create.Pulldown()", "self.root.aaf.create.PullDown()")
M('C18', 'misc.py', "        pointlist = self['PointList']\n        start = 0", "        pointlist = self['Pointlist']\n        start = 0")
M('C18', 'types.py', "add_u8_property(self, PID_INT_SIZE, size)", "add_u8_property(self, PID_INT_SIGNED, size)")
M('C18', 'types.py', "properties.add_u32le_property(self, PID_FIXED_COUNT, size)", "properties.add_u16le_property(self, PID_FIXED_COUNT, size)")
M('C18', 'metadict.py', "PID_PID       = 0x000D", "PID_PID       = 0x000E")
M('C18', 'utils.py', "    AAFClassName_dict[classobj.__name__] = classobj\n", "")
R('create local', ('mobs.py', "self.root.create.TapeDescriptor()", "getattr(self.root.create, 'TapeDescriptor')()"))
R('tables comp', ('model/typedefs.py', 'ints = {', 'ints = {k: v for k, v in _ints.items()}\n'.join(['', '']) + '_ints = {') if False else ('model/typedefs.py', '}\n\nenums = {', '}\nints = {k: tuple(v) for k, v in ints.items()}\n\nenums = {'))

# ---- C28
M('C28', 'cfb.py', "raise ValueError(", "raise ValuError(")
M('C28', 'mobs.py', "timecode_slot.segment = self.root.create.Timecode(timecode_fps, drop=drop_frame, length=length)", "timecode_slot.segment = self.root.create.Timecode(timecode_fps, drop=dropframe, length=length)")
M('C28', 'metadict.py', "        result = self.next_pid\n", "        if self.next_pid != 0x9000:\n            result = self.next_pid\n")
M('C28', 'properties.py', "self.parent.root.manager.add_modified(self.parent)", "self.parent.root.manager.add_modifed(self.parent)")
M('C28', 'file.py', "self.metadict.register_extensions()", "self.metadict.register_extension()")
M('C28', 'mobs.py', "slot = self.root.create.TimelineMobSlot(slot_id, edit_rate=edit_rate)", "slot = self.root.create.TimelineMobSlot(slot_id, edit_rate=edit_rate)\n        slot.attach_to(self)")
M('C28', 'types.py', "properties.add_u8_property(self, PID_INT_SIZE, size)", "properties.add_u8_property(PID_INT_SIZE, size)")
M('C28', 'cfb.py', "struct.pack_into(str('<Q'), self.data, 120, value)", "struct.pack_into(str('<QQ'), self.data, 120, value)")
M('C28', 'metadict.py', "            raise ValueError(\"ran out of local pids\")", "            raise NotImplemented(\"ran out of local pids\")")
M('C28', 'core.py', "        for pid, p in self.property_entries.items():\n            keys.append(p.name)", "        for pid, p in self.property_entries.items():\n            if p.name is None:\n                self.property_entries.pop(pid)\n            keys.append(p.name)")
M('C28', 'cfb.py', "from .utils import (", "from .utils import (read_u23be, ")
R('lint flag', ('metadict.py', "        result = self.next_pid\n", "        found = self.next_pid\n        if found:\n            result = found\n        if not found:\n            result = 0\n"))
R('lint list copy', ('core.py', "        for pid, p in self.property_entries.items():\n            keys.append(p.name)", "        for pid in list(self.property_entries):\n            p = self.property_entries.get(pid)\n            keys.append(p.name)"))

# ---- C20
EXIT = "            self.is_open = False\n            try:\n                self.cfb.close()\n            finally:\n                self.f.close()"
M('C20', 'file.py', EXIT, "            self.is_open = False\n            self.cfb.close()")
M('C20', 'file.py', EXIT, "            self.is_open = False\n            try:\n                self.cfb.close()\n            except IOError:\n                pass")
M('C20', 'file.py', EXIT, "            self.close()")
M('C20', 'file.py', "exc_type is None and exc_value is None and traceback is None", "exc_type is None or isinstance(exc_value, ValueError)")
M('C20', 'file.py', EXIT, EXIT + "\n            return True")
M('C20', 'file.py', EXIT, "            try:\n                self.cfb.close()\n            finally:\n                self.f.close()")
M('C20', 'file.py', EXIT, "            try:\n                self.manager.write_objects()\n                self.cfb.close()\n            finally:\n                self.is_open = False\n                self.f.close()")
M('C20', 'file.py', '            if not self.is_open:\n                raise IOError("file closed")\n            self.write_reference_properties()', '            self.write_reference_properties()\n            if not self.is_open:\n                raise IOError("file closed")')
M('C20', 'file.py', '            if not self.is_open:\n                raise IOError("file closed")\n', '            if not self.is_open:\n                return\n')
M('C20', 'file.py', "        self.cfb.close()\n        self.is_open = False\n        self.f.close()", "        self.cfb.close()\n        self.f.close()")
M('C20', 'file.py', "                obj.write_properties()\n                written.append(path)", "                written.append(path)\n                obj.write_properties()") if False else \
M('C20', 'file.py', "        for path, obj in self.modified.items():\n            try:\n                obj.write_properties()\n                written.append(path)", "        for path in list(self.modified):\n            obj = self.modified.pop(path)\n            try:\n                obj.write_properties()\n                written.append(path)")
M('C20', 'file.py', '                print("failed to write: %s %s" %  (str(path), str(obj)))\n                raise', '                print("failed to write: %s %s" %  (str(path), str(obj)))\n                self.modified.clear()\n                raise')
R('exit order', ('file.py', "        if (exc_type is None and exc_value is None and traceback is None):\n            self.close()\n        else:\n" + EXIT,
  "        if exc_type is not None or exc_value is not None or traceback is not None:\n            self._abandon()\n            return\n        self.close()\n\n    def _abandon(self):\n        self.is_open = False\n        try:\n            self.cfb.close()\n        finally:\n            self.f.close()"))
R('exit type only', ('file.py', "exc_type is None and exc_value is None and traceback is None", "exc_type is None"))
R('write clear', ('file.py', "        # no longer need to be in modified\n        for path in written:\n            self.modified.pop(path)", "        # no longer need to be in modified\n        self.modified.clear()"))
R('write del', ('file.py', "        # no longer need to be in modified\n        for path in written:\n            self.modified.pop(path)", "        for path in written:\n            del self.modified[path]"))
R('write list', ('file.py', "        for path, obj in self.modified.items():\n            try:\n                obj.write_properties()\n                written.append(path)\n", "        for path in list(self.modified):\n            obj = self.modified[path]\n            try:\n                obj.write_properties()\n                written.append(path)\n"))
R('save guard first', ('file.py', '        if self.mode in ("wb+", \'rb+\'):\n            if not self.is_open:\n                raise IOError("file closed")\n            self.write_reference_properties()\n            self.manager.write_objects()',
  '        if not self.writeable:\n            return\n        if not self.is_open:\n            raise IOError("file closed")\n        self.write_reference_properties()\n        self.manager.write_objects()'))

# ---- C21
WI = "        if pid_path in self.weakref_table:\n            index = self.weakref_table.index(pid_path)\n        else:\n            index = len(self.weakref_table)\n            self.weakref_table.append(pid_path)\n\n        return index"
M('C21', 'file.py', "            index = len(self.weakref_table)\n            self.weakref_table.append(pid_path)", "            self.weakref_table.append(pid_path)\n            index = len(self.weakref_table)")
M('C21', 'file.py', "            self.weakref_table.append(pid_path)\n\n        return", "            self.weakref_table.insert(0, pid_path)\n\n        return")
M('C21', 'file.py', "            self.weakref_table.append(pid_path)\n\n        return", "            self.weakref_table.append(pid_path)\n            self.weakref_table.sort()\n\n        return")
M('C21', 'file.py', WI, "        self.weakref_table.append(pid_path)\n        return len(self.weakref_table) - 1")
M('C21', 'file.py', "            index = self.weakref_table.index(pid_path)\n", "            index = self.weakref_table.index(pid_path) + 1\n")
M('C21', 'file.py', "        path = self.weakref_table[index]\n", "        path = self.weakref_table[index - 1]\n")
M('C21', 'file.py', "        for path in self.weakref_table:\n            for pid in path:", "        for path in sorted(self.weakref_table):\n            for pid in path:")
M('C21', 'file.py', "            self.write_reference_properties()\n            self.manager.write_objects()", "            if self.mode == 'wb+':\n                self.write_reference_properties()\n            self.manager.write_objects()")
M('C21', 'properties.py', "        if parent.root is self.parent.root:\n            p.weakref_index = self.weakref_index\n            p.key_pid = self.key_pid\n            p.key_size = self.key_size\n            p.ref = self.ref\n        else:", "        p.weakref_index = self.weakref_index\n        if parent.root is self.parent.root:\n            p.key_pid = self.key_pid\n            p.key_size = self.key_size\n            p.ref = self.ref\n        else:")
M('C21', 'file.py', "        f = self.cfb.open(\"/referenced properties\", 'w')\n        byte_order = 0x4c\n", "        f = self.cfb.open(\"/referenced properties\", 'w')\n        byte_order = 0x4c\n        self.weakref_table = [p for p in self.weakref_table if p]\n")
M('C21', 'types.py', "        return [p.pid for c, p in self.propertydef_path]", "        return tuple(p.pid for c, p in self.propertydef_path)")
R('index eafp', ('file.py', WI, "        try:\n            return self.weakref_table.index(pid_path)\n        except ValueError:\n            self.weakref_table.append(pid_path)\n            return len(self.weakref_table) - 1"))
R('index loop', ('file.py', WI, "        for index, known in enumerate(self.weakref_table):\n            if known == pid_path:\n                return index\n        index = len(self.weakref_table)\n        self.weakref_table.append(pid_path)\n        return index"))
R('index not in', ('file.py', WI, "        table = self.weakref_table\n        if pid_path not in table:\n            table.append(pid_path)\n        return table.index(pid_path)"))
R('prop pop', ('file.py', "        root = self.root\n\n        for pid in path[:-1]:\n            p = root.property_entries[pid]\n            root = p.value\n\n        p = root.property_entries[path[-1]]\n        return root, p",
  "        root = self.root\n        last = path[-1]\n\n        for pid in path[:-1]:\n            root = root.property_entries[pid].value\n\n        return root, root.property_entries[last]"))

# ---- C24
M('C24', 'file.py', '        if classdef is None:\n            raise ValueError("no class found with name: %s" % name)\n\n        if not classdef.concrete:', '        if classdef is not None and not classdef.concrete:')
M('C24', 'file.py', '        if not classdef.concrete:\n            raise ValueError("cannot initialize abstract class: %s" % name)\n', '')
M('C24', 'file.py', "        if not classdef.concrete:", "        if not classdef.concrete and not args:")
M('C24', 'file.py', "            obj.class_id = classdef.auid\n\n        return obj\n\nclass", "            pass\n\n        return obj\n\nclass")
M('C24', 'core.py', "            if propertydef.optional:\n                continue", "            if propertydef.optional:\n                break")
M('C24', 'core.py', "            if propertydef.optional:\n", "            if propertydef.optional or not propertydef.unique:\n")
M('C24', 'core.py', "            missing.append(propertydef)\n", "            missing.append(propertydef)\n            break\n")
M('C24', 'core.py', "in ('ObjClass',)", "in ('ObjClass', 'InstanceUID')")
M('C24', 'core.py', "        for propertydef in self.classdef.all_propertydefs():\n\n            if propertydef.optional", "        for propertydef in self.classdef.propertydefs:\n\n            if propertydef.optional")
M('C24', 'core.py', "        if validate:\n            self.validate()\n\n        s = self.dir.touch(\"properties\").open(mode='rw')\n", "        s = self.dir.touch(\"properties\").open(mode='rw')\n        s.truncate()\n        if validate:\n            self.validate()\n")
M('C24', 'file.py', "                obj.write_properties()\n", "                obj.write_properties(validate=self.root.mode == 'wb+' and False)\n") if False else M('C24', 'file.py', "                obj.write_properties()\n", "                obj.write_properties(False)\n")
M('C24', 'file.py', '                print("failed to write: %s %s" %  (str(path), str(obj)))\n                raise', '                print("failed to write: %s %s" %  (str(path), str(obj)))')
M('C24', 'metadict.py', "            if not classdef:\n                break\n                # raise", "            if not classdef or not classdef.concrete:\n                break\n                # raise")
M('C24', 'metadict.py', "            yield root\n            root = root.parent", "            yield root\n            root = root.parent and root.parent.parent")
M('C24', 'core.py', "        if missing:\n            m = []", "        if len(missing) > 1:\n            m = []")
M('C24', 'core.py', "    def write_properties(self, validate=True):", "    def write_properties(self, validate=False):")
R('validate positive', ('core.py', "            if propertydef.optional:\n                continue\n\n            if propertydef.pid in self.property_entries:\n                continue\n\n            # stored on dir entry I guess...\n            if propertydef.property_name in ('ObjClass',):\n                continue\n\n            missing.append(propertydef)",
  "            present = propertydef.pid in self.property_entries\n            if not (propertydef.optional or present or propertydef.property_name == 'ObjClass'):\n                missing.append(propertydef)"))
R('validate comp', ('core.py', "        missing = []\n\n        for propertydef in self.classdef.all_propertydefs():\n\n            if propertydef.optional:\n                continue\n\n            if propertydef.pid in self.property_entries:\n                continue\n\n            # stored on dir entry I guess...\n            if propertydef.property_name in ('ObjClass',):\n                continue\n\n            missing.append(propertydef)\n",
  "        missing = [p for p in self.classdef.all_propertydefs()\n                   if not p.optional and p.pid not in self.property_entries and p.property_name not in ('ObjClass',)]\n"))
R('factory guards', ('file.py', '        if classdef is None:\n            raise ValueError("no class found with name: %s" % name)\n\n        if not classdef.concrete:\n            raise ValueError("cannot initialize abstract class: %s" % name)\n\n        classobj',
  '        if not classdef or not classdef.concrete:\n            raise ValueError("no class to create: %s" % name)\n\n        classobj'))
R('factory helper', ('file.py', '        classdef = self.root.metadict.lookup_classdef(name)\n        if classdef is None:\n            raise ValueError("no class found with name: %s" % name)\n\n        if not classdef.concrete:\n            raise ValueError("cannot initialize abstract class: %s" % name)\n', '        classdef = self._concrete(name)\n'),
  ('file.py', '    def from_name(self, name, *args, **kwargs):', '    def _concrete(self, name):\n        classdef = self.root.metadict.lookup_classdef(name)\n        if classdef is None:\n            raise ValueError("no class found with name: %s" % name)\n        if classdef.concrete is False:\n            raise ValueError("cannot initialize abstract class: %s" % name)\n        return classdef\n\n    def from_name(self, name, *args, **kwargs):'))
R('relatives recursion', ('metadict.py', "        root = self\n        while root:\n            yield root\n            root = root.parent", "        yield self\n        parent = self.parent\n        if parent:\n            for p in parent.relatives():\n                yield p"))
R('all propertydefs', ('metadict.py', "            if not classdef:\n                break\n                # raise Exception(self.class_name)\n\n            for p in classdef.propertydefs:\n                yield p", "            for p in list(classdef.propertydefs):\n                yield p"))
R('factory class id', ('file.py', "        if type(obj) is AAFObject:\n            obj.class_id = classdef.auid\n\n        return obj\n\nclass", "        if type(obj) is not AAFObject:\n            return obj\n        obj.class_id = classdef.auid\n        return obj\n\nclass"))

# ---- C30
M('C30', 'mobs.py', "            while True:\n                data = f.read(raw_frame_size)", "            f = io.open(path, 'rb')\n            while True:\n                data = f.read(raw_frame_size)")
M('C30', 'mobs.py', "        finally:\n            a.close()", "        except ValueError:\n            a.close()\n            raise")
M('C30', 'ama.py', "    with open(path, 'rb') as file:\n        if file.read(4) != b\"RIFF\":\n            return None\n", "    if open(path, 'rb').read(4) != b\"RIFF\":\n        return None\n    with open(path, 'rb') as file:\n        file.seek(4)\n")
M('C30', 'file.py', "                self.f.close()", "                pass")
M('C30', 'file.py', "        except:\n            self.f.close()\n            raise", "        except ValueError:\n            self.f.close()\n            raise")
M('C30', 'mxf.py', "        with io.open(path, 'rb') as f:\n\n            for key, length in iter_kl(f):\n", "        f = io.open(path, 'rb')\n        if True:\n            for key, length in iter_kl(f):\n")
R('with closing', ('mobs.py', "        a = audio.wave.Wave_write(path)\n        try:\n", "        from contextlib import closing\n        with closing(audio.wave.Wave_write(path)) as a:\n"), ('mobs.py', "                a.writeframesraw(data)\n\n        finally:\n            a.close()", "                a.writeframesraw(data)\n"))
R('open helper', ('mxf.py', "        with io.open(path, 'rb') as f:\n\n            for key", "        with open_source(path) as f:\n\n            for key"), ('mxf.py', "class MXFFile(object):\n", "def open_source(path):\n    return io.open(path, 'rb')\n\nclass MXFFile(object):\n"))
R('none guard', ('mobs.py', "        a = audio.wave.Wave_write(path)\n        try:\n", "        a = None\n        try:\n            a = audio.wave.Wave_write(path)\n"), ('mobs.py', "                a.writeframesraw(data)\n\n        finally:\n            a.close()", "                a.writeframesraw(data)\n\n        finally:\n            if a is not None:\n                a.close()"))

# ---- C12
SR = "        if value.root is not self.parent.root:\n            raise AAFAttachError(\"Object is from a different root\")\n\n        if value.dir and value is not self.object:\n            raise AAFAttachError(\"Object already attached\")\n"
M('C12', 'properties.py', "        if not ref_classdef.isinstance(value.classdef):\n            raise TypeError(\"must be", "        if not value.classdef.isinstance(ref_classdef):\n            raise TypeError(\"must be")
M('C12', 'properties.py', "        if value.dir and value is not self.object:\n            raise AAFAttachError(\"Object already attached\")\n", "")
M('C12', 'properties.py', "        if value.dir and value is not self.object:\n", "        if value.dir and self.object is None:\n")
M('C12', 'properties.py', SR, "")
M('C12', 'properties.py', SR + "\n        if self.ref is None:\n            propdef = self.propertydef\n            self.ref = mangle_name(propdef.property_name, self.pid, 32)\n            self.data = self.encode(self.ref)\n\n        # before assigning new object detach old\n        current = self.object\n        if current is None and self.attached and self.pid in self.parent.property_entries:\n            current = self.value\n\n        if current:\n            current.detach()\n            self.object = None\n",
  "        if self.ref is None:\n            propdef = self.propertydef\n            self.ref = mangle_name(propdef.property_name, self.pid, 32)\n            self.data = self.encode(self.ref)\n\n        # before assigning new object detach old\n        current = self.object\n        if current is None and self.attached and self.pid in self.parent.property_entries:\n            current = self.value\n\n        if current:\n            current.detach()\n            self.object = None\n" + SR)
M('C12', 'properties.py', "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        self.objects[index] = value", "        obj = self.objects.pop(index, None)\n        if obj:\n            obj.detach()\n        if not self.typedef:\n            raise AAFPropertyError('no type')\n\n        self.objects[index] = value")
M('C12', 'properties.py', "        assert self.ref_classdef.isinstance(value.classdef)\n\n        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n", "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        assert self.ref_classdef.isinstance(value.classdef)\n")
M('C12', 'properties.py', "        assert self.ref_classdef.isinstance(value.classdef)\n\n        obj = self.get", "        obj = self.get")
M('C12', 'properties.py', "            if obj.dir and id(obj) not in owned:", "            if obj.dir and id(obj) in seen:")
M('C12', 'properties.py', "        value = list(value)\n        self.check_values(value, list(self))\n        self.clear()\n", "        value = list(value)\n        self.clear()\n")
M('C12', 'properties.py', "        self.check_values(value, self.values())\n        self.clear()\n", "        self.clear()\n")
M('C12', 'properties.py', "        self.check_values(value)\n        self.clear()\n        self.extend(value)\n\n\nclass WeakRefV", "        self.clear()\n        self.extend(value)\n\n\nclass WeakRefV")
M('C12', 'properties.py', "            if item.root is not self.parent.root:\n                raise AAFAttachError(\"Object is from a different root\")\n            if item.dir and id", "            if item.dir and id")
M('C12', 'properties.py', "            if item.dir and id(item) not in owned:\n                raise AAFAttachError(\"Object already attached\")\n", "")
M('C12', 'properties.py', "        ref_classdef = self.ref_classdef\n        assert ref_classdef.isinstance(value.classdef)\n\n        if value.root is not self.parent.root:\n            raise AAFAttachError(\"Object is from a different root\")\n\n        if self.key_pid", "        ref_classdef = self.ref_classdef\n        assert ref_classdef.isinstance(value.classdef)\n\n        if self.key_pid")
M('C12', 'properties.py', "        for item in values:\n            if not ref_classdef.isinstance(item.classdef):\n                raise TypeError(\"Invalid Value\")\n            if item.root is not self.parent.root:\n                raise AAFAttachError(\"Object is from a different root\")\n            assert", "        for item in values:\n            assert")
M('C12', 'properties.py', "        if value.root is not self.parent.root:\n            raise AAFAttachError(\"Object is from a different root\")\n\n        if value.dir:\n            raise AAFAttachError(\"Object already attached\")\n\n        # same index semantics as list.insert\n        if index < 0:\n            index = max(0, len(self) + index)\n        index = min(index, len(self))\n\n        self.references.insert(index, self.next_free_key)\n",
  "        # same index semantics as list.insert\n        if index < 0:\n            index = max(0, len(self) + index)\n        index = min(index, len(self))\n\n        self.references.insert(index, self.next_free_key)\n        if value.root is not self.parent.root:\n            raise AAFAttachError(\"Object is from a different root\")\n\n        if value.dir:\n            raise AAFAttachError(\"Object already attached\")\n")
M('C12', 'properties.py', "        for item in values:\n            key = item.unique_key\n\n            current = self.get(key, None)", "        for item in values:\n            key = item.unique_key\n            if key is None:\n                raise ValueError('no key')\n\n            current = self.get(key, None)")
M('C12', 'core.py', "        if self.dir:\n            raise AAFAttachError", "        if self.dir is dir_entry:\n            raise AAFAttachError")
R('strong guards helper', ('properties.py', SR, "        self._acceptable(value)\n"), ('properties.py', "    def detach(self):\n        # convert to regular ref", "    def _acceptable(self, value):\n        if self.parent.root is not value.root:\n            raise AAFAttachError(\"Object is from a different root\")\n        if value is self.object or not value.dir:\n            return\n        raise AAFAttachError(\"Object already attached\")\n\n    def detach(self):\n        # convert to regular ref"))
R('vector check split', ('properties.py', "        for obj in values:\n            assert ref_classdef.isinstance(obj.classdef)\n\n            if obj.root is not self.parent.root:\n                raise AAFAttachError(\"Object is from a different root\")\n\n            if obj.dir and id(obj) not in owned:\n                raise AAFAttachError(\"Object already attached\")\n\n            if id(obj) in seen:\n                raise AAFAttachError(\"Object added more than once\")\n            seen.add(id(obj))",
  "        for obj in values:\n            if not ref_classdef.isinstance(obj.classdef):\n                raise AssertionError(obj)\n        root = self.parent.root\n        for obj in values:\n            if not obj.root is root:\n                raise AAFAttachError(\"Object is from a different root\")\n        for obj in values:\n            if obj.dir is not None and not id(obj) in owned:\n                raise AAFAttachError(\"Object already attached\")\n            if id(obj) in seen:\n                raise AAFAttachError(\"Object added more than once\")\n            seen.add(id(obj))"))
R('set check any', ('properties.py', "            if item.dir and id(item) not in owned:\n                raise AAFAttachError(\"Object already attached\")\n            assert", "            if item.dir:\n                if id(item) not in owned:\n                    raise AAFAttachError(\"Object already attached\")\n            assert"))
R('setitem order', ('properties.py', "        if value.dir:\n            raise AAFAttachError(\"Object already attached\")\n\n        assert self.ref_classdef.isinstance(value.classdef)\n\n        obj = self.get(index, None)\n", "        assert self.ref_classdef.isinstance(value.classdef)\n        if value.dir is not None:\n            raise AAFAttachError(\"Object already attached\")\n\n        obj = self.get(index, None)\n"))
R('set append loop', ('properties.py', "        if isinstance(value, dict):\n            value = value.values()\n\n        value = list(value)\n", "        value = list(value.values() if isinstance(value, dict) else value)\n"))
R('weak check comp', ('properties.py', "        for item in values:\n            self.references.append(item.unique_key)\n\n        self.add_pid_entry()", "        self.references.extend([item.unique_key for item in values])\n\n        self.add_pid_entry()"))
M('C12', 'properties.py', "        if current is None and self.attached and self.pid in self.parent.property_entries:\n            current = self.value\n\n        if current:\n            current.detach()\n", "        if current:\n            current.detach()\n")
M('C12', 'properties.py', "        if current:\n            current.detach()\n            self.object = None\n\n        self.object = value", "        self.object = value")
M('C12', 'properties.py', "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        self.objects[index]", "        obj = self.objects.get(index, None)\n        if obj:\n            obj.detach()\n\n        self.objects[index]")
M('C12', 'properties.py', "        assert obj is item\n\n        obj.detach()\n        return obj", "        assert obj is item\n\n        if self.parent.dir is None:\n            obj.detach()\n        return obj")
M('C12', 'properties.py', "        for obj in self:\n            obj.detach()\n\n        self.next_free_key = 0", "        for obj in self.objects.values():\n            obj.detach()\n\n        self.next_free_key = 0")
M('C12', 'properties.py', "        for item in self.values():\n            item.detach()\n        self.references = {}", "        self.references = {}")
M('C12', 'properties.py', "            if current and current is not item:\n                current.detach()\n\n            if current_local", "            if current is item:\n                current.detach()\n\n            if current_local")
M('C12', 'properties.py', "            current = self.get(key, None)\n            current_local_key", "            current = self.objects.get(key, None)\n            current_local_key")
M('C12', 'core.py', "        result.remove_pid_entry()", "        del self.property_entries[result.pid]")
M('C12', 'properties.py', "        self.clear()\n        super(StrongRefSetProperty, self).remove_pid_entry()", "        super(StrongRefSetProperty, self).remove_pid_entry()")
R('clear list', ('properties.py', "        for item in self.values():\n            item.detach()\n        self.references = {}\n        if self.attached:", "        old = list(self.values())\n        for item in old:\n            item.detach()\n        self.references = dict()\n        if self.parent.dir:"))
R('setitem early', ('properties.py', "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        self.objects[index] = value", "        old = self[index]\n        if old is not None:\n            old.detach()\n\n        self.objects[index] = value"))
R('strong old helper', ('properties.py', "        current = self.object\n        if current is None and self.attached and self.pid in self.parent.property_entries:\n            current = self.value\n\n        if current:\n            current.detach()\n            self.object = None\n\n        self.object = value", "        self._release()\n\n        self.object = value"), ('properties.py', "    def detach(self):\n        # convert to regular ref", "    def _release(self):\n        current = self.object\n        if current is None and self.attached and self.pid in self.parent.property_entries:\n            current = self.value\n        if current is None:\n            return\n        current.detach()\n        self.object = None\n\n    def detach(self):\n        # convert to regular ref"))
R('set pop order', ('properties.py', "        self.references.pop(key)\n        self.objects.pop(key)\n\n        obj.detach()\n\n        return obj", "        obj.detach()\n        del self.references[key]\n        self.objects.pop(key)\n        return obj"))
R('set replace get', ('properties.py', "            current = self.get(key, None)\n            current_local_key = self.references.get(key, None)\n\n            if current and current is not item:\n                current.detach()\n\n            if current_local_key is None:\n                self.references[key] = self.next_free_key\n                self.next_free_key += 1\n", "            if key in self.references:\n                current = self[key]\n                if current is not item:\n                    current.detach()\n            else:\n                self.references[key] = self.next_free_key\n                self.next_free_key += 1\n"))

# ---- C13
VE = "            self.references.append(self.next_free_key)\n            self.objects[i] = obj\n            self.next_free_key += 1\n"
M('C13', 'properties.py', VE, "            self.references.append(i)\n            self.objects[i] = obj\n            self.next_free_key += 1\n")
M('C13', 'properties.py', VE, "            self.references.append(self.next_free_key)\n            self.objects[i] = obj\n        self.next_free_key += 1\n")
M('C13', 'properties.py', VE, "            self.references.append(self.next_free_key)\n            self.objects[i] = obj\n            self.next_free_key = len(self.references)\n")
M('C13', 'properties.py', "                objects[key] = value\n\n        self.next_free_key += 1\n", "                objects[key] = value\n\n")
M('C13', 'properties.py', "        assert obj is item\n\n        obj.detach()\n        return obj", "        assert obj is item\n\n        obj.detach()\n        if index == len(self.references):\n            self.next_free_key -= 1\n        return obj")
M('C13', 'properties.py', "        self.references.pop(key)\n        self.objects.pop(key)\n\n        obj.detach()\n", "        self.references.pop(key)\n        self.objects.pop(key)\n        if not self.references:\n            self.next_free_key = 0\n        else:\n            self.next_free_key = max(self.references.values()) + 1\n        obj.detach()\n")
M('C13', 'properties.py', "            p.next_free_key = self.next_free_key\n            p.last_free_key = self.last_free_key\n            p.key_size", "            p.last_free_key = self.last_free_key\n            p.key_size")
M('C13', 'properties.py', "            p.next_free_key = self.next_free_key\n            p.last_free_key = self.last_free_key\n            p.data", "            p.next_free_key = len(self.references)\n            p.last_free_key = self.last_free_key\n            p.data")
M('C13', 'properties.py', "                self.references[key] = self.next_free_key\n                self.next_free_key += 1\n", "                self.references[key] = self.next_free_key\n            self.next_free_key = len(self.references)\n")
M('C13', 'properties.py', "            self.objects[key] = item\n\n            if self.parent.dir:", "            self.objects[self.key_pid] = item\n\n            if self.parent.dir:")
M('C13', 'properties.py', "        if new_key != old_key and new_key in self.references:\n            raise ValueError(\"key already exists: %s\" % str(new_key))\n", "")
M('C13', 'properties.py', "        if new_key != old_key and new_key in self.references:", "        if new_key != old_key and new_key in self.objects:")
M('C13', 'properties.py', "        local_key = self.references.pop(old_key)\n\n        self.references[new_key] = local_key\n", "        self.references.pop(old_key)\n\n        self.references[new_key] = self.next_free_key\n        self.next_free_key += 1\n")
M('C13', 'properties.py', "        local_key = self.references.pop(old_key)\n\n", "        local_key = self.references[old_key]\n\n")
M('C13', 'properties.py', "        data = new_key.bytes_le\n", "        data = old_key.bytes_le\n")
M('C13', 'properties.py', "            else:\n                raise AAFPropertyError(\"cannot change unique property value of attached object\")\n", "")
M('C13', 'properties.py', "        if self.data is not None and self.parent.dir and self.unique:", "        if value is not None and self.data is not None and self.parent.dir and self.unique:")
M('C13', 'properties.py', "self.parent.root.content.mobs.swap_unique_key(self.value, value)", "self.parent.root.content.mobs.swap_unique_key(value, self.value)")
M('C13', 'properties.py', "            elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:\n                self.parent.root.content.essencedata.", "            elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:\n                self.parent.root.content.mobs.")
M('C13', 'properties.py', "        return \"%s{%x}\" % (self.index_name, self.references[key])", "        return \"%s{%x}\" % (self.index_name, self.references[key] & 0xFFFF)")
M('C13', 'properties.py', "        return \"%s{%x}\" % (self.index_name, self.references[index])", "        return \"%s{%x}\" % (self.index_name, index)")
M('C13', 'properties.py', "    if current_local_key is None:\n        prop.references[key] = prop.next_free_key\n        prop.next_free_key += 1\n", "    if current_local_key is None:\n        prop.references[key] = len(prop.references)\n        prop.next_free_key += 1\n")
R('key local', ('properties.py', VE, "            key = self.next_free_key\n            self.next_free_key = key + 1\n            self.references.append(key)\n            self.objects[i] = obj\n"))
R('key helper', ('properties.py', VE, "            self.references.append(self._new_key())\n            self.objects[i] = obj\n"), ('properties.py', "    def append(self, value):\n        self.extend([value])\n\n    @property\n    def value(self):\n        return [item for item in self]\n\n    @value.setter\n    @writeonly\n    def value(self, value):\n        if value is None:\n            self.remove_pid_entry()\n            return\n\n        value = list(value)\n        self.check_values(value, list(self))", "    def _new_key(self):\n        key = self.next_free_key\n        self.next_free_key += 1\n        return key\n\n    def append(self, value):\n        self.extend([value])\n\n    @property\n    def value(self):\n        return [item for item in self]\n\n    @value.setter\n    @writeonly\n    def value(self, value):\n        if value is None:\n            self.remove_pid_entry()\n            return\n\n        value = list(value)\n        self.check_values(value, list(self))"))
R('swap order', ('properties.py', "        # remove reference\n        self.objects.pop(old_key)\n        local_key = self.references.pop(old_key)\n\n        self.references[new_key] = local_key\n        self.objects[new_key] = obj\n", "        self.references[new_key] = self.references.pop(old_key)\n        del self.objects[old_key]\n        self.objects[new_key] = obj\n"))
R('swap same first', ('properties.py', "        if new_key != old_key and new_key in self.references:\n            raise ValueError", "        if new_key == old_key:\n            return\n        if new_key in self:\n            raise ValueError"))
R('unique guard order', ('properties.py', "        if self.data is not None and self.parent.dir and self.unique:\n            if self.propertydef.auid == MOB_MOBID_AUID:", "        if self.attached and self.unique and self.data is not None:\n            if self.propertydef.auid == MOB_MOBID_AUID:"))
R('ref name format', ('properties.py', "        return \"%s{%x}\" % (self.index_name, self.references[key])", "        return self.index_name + \"{%x}\" % self.references[key]"))

# ---- C14
OWN = "isinstance(p, (properties.StrongRefProperty,\n                                  properties.StrongRefVectorProperty,\n                                  properties.StrongRefSetProperty,\n                                  properties.StreamProperty)):\n                    # conv"
M('C14', 'core.py', OWN, "isinstance(p, (properties.StrongRefProperty,\n                                  properties.StrongRefVectorProperty,\n                                  properties.StreamProperty)):\n                    # conv")
M('C14', 'core.py', "                self.root.manager.pop(item.dir.path(), None)\n\n                # NOTE", "                # NOTE")
M('C14', 'core.py', "                item.dir = None\n", "                if item is not self:\n                    item.dir = None\n                    self.dir = self.dir\n", )
M('C14', 'core.py', "        self.dir.class_id = self.class_id\n\n        # add self to modified", "        # add self to modified")
M('C14', 'core.py', "        # add self to modified\n        self.root.manager.add_modified(self)\n\n        for pid, p", "        for pid, p")
M('C14', 'core.py', "                              properties.StrongRefSetProperty,\n                              properties.StreamProperty)):\n\n                p.attach()", "                              properties.StrongRefSetProperty)):\n\n                p.attach()")
M('C14', 'core.py', "            elif isinstance(p, properties.StrongRefSetProperty):\n\n                for obj in p.value:\n                    refs.append(obj)\n\n", "")
M('C14', 'core.py', "                for v in p.value:\n                    refs.append(v)", "                for v in p.objects.values():\n                    refs.append(v)")
M('C14', 'core.py', "                obj = p.value\n                if obj:\n                    refs", "                obj = p.object\n                if obj:\n                    refs")
M('C14', 'core.py', "        if topdown:\n            yield self, streams\n", "")
M('C14', 'properties.py', "        # convert to regular ref\n        self.objectref = self.value", "        # convert to regular ref\n        self.objectref = self.object")
M('C14', 'properties.py', "        # convert to regular ref\n        self.objectref = self.value", "        self.object = self.value")
M('C14', 'properties.py', "        for i, obj in enumerate(self):\n            objects[i] = obj\n        self.objects = objects", "        for i, obj in self.objects.items():\n            objects[i] = obj\n        self.objects = objects")
M('C14', 'properties.py', "        objects = {}\n        for key, value in self.items():", "        objects = weakref.WeakValueDictionary()\n        for key, value in self.items():")
M('C14', 'properties.py', "        self.dir = self.parent.root.cfb.move(stream_path, tmp", "        self.parent.root.cfb.move(stream_path, tmp")
M('C14', 'properties.py', "        self.parent.root.cfb.move(self.dir.path(), stream_path)\n\n        self.dir = None", "        self.parent.root.cfb.move(self.dir.path(), stream_path)")
M('C14', 'properties.py', "            ref = self.index_ref_name(key)\n            dir_entry = self.parent.dir.get(ref)\n            if dir_entry is None:\n                dir_entry = self.parent.dir.makedir(ref)\n            if obj.dir is not", "            ref = \"%s{%x}\" % (self.index_name, self.next_free_key)\n            dir_entry = self.parent.dir.get(ref)\n            if dir_entry is None:\n                dir_entry = self.parent.dir.makedir(ref)\n            if obj.dir is not")
M('C14', 'properties.py', "            if obj.dir is not dir_entry:\n                obj.attach(dir_entry)\n\n\n    def __repr__(self):\n        return \"<%s %s to", "            if obj.dir is not dir_entry and i == 0:\n                obj.attach(dir_entry)\n\n\n    def __repr__(self):\n        return \"<%s %s to")
M('C14', 'properties.py', "            p.references = list(self.references)\n            p.index_name = self.index_name\n            p.next", "            p.references = self.references\n            p.index_name = self.index_name\n            p.next")
M('C14', 'properties.py', "            p.key_size = self.key_size\n            p.index_name = self.index_name\n            p.key_pid", "            p.index_name = self.index_name\n            p.key_pid")
M('C14', 'properties.py', "            p.key_pid = self.key_pid\n            p.key_size = self.key_size\n            p.ref = self.ref", "            p.key_pid = self.key_pid\n            p.key_size = 16\n            p.ref = self.ref")
M('C14', 'properties.py', "                c = value.copy(root=parent.root, classdef_cache=cache)\n                p.append(c)\n\n        return p\n\n    @property", "                c = value.copy(classdef_cache=cache)\n                p.append(c)\n\n        return p\n\n    @property")
M('C14', 'properties.py', "                c = value.copy(dir_entry)\n                p.objects[i] = c\n", "                p.objects[i] = value\n")
M('C14', 'properties.py', "            for value in self.values():\n                c = value.copy(root=parent.root", "            for value in self.objects.values():\n                c = value.copy(root=parent.root")
M('C14', 'properties.py', "            p.value = target_property[self.ref]\n", "            p.value = self.value\n")
M('C14', 'properties.py', "        p.data = bytes(self.data)\n        return p", "        return p")
M('C14', 'properties.py', "            b.write(d)\n", "")
R('detach kinds const', ('core.py', "    def detach(self, delete=False):\n", "    OWNING = (properties.StrongRefProperty,\n              properties.StrongRefVectorProperty,\n              properties.StrongRefSetProperty,\n              properties.StreamProperty)\n\n    def detach(self, delete=False):\n"),
  ('core.py', "                if isinstance(p, (properties.StrongRefProperty,\n                                  properties.StrongRefVectorProperty,\n                                  properties.StrongRefSetProperty,\n                                  properties.StreamProperty)):\n                    # conv", "                if isinstance(p, self.OWNING):\n                    # conv"))
R('walk ifelse', ('core.py', "            elif isinstance(p, properties.StrongRefVectorProperty):\n                for v in p.value:\n                    refs.append(v)\n\n            elif isinstance(p, properties.StrongRefSetProperty):\n\n                for obj in p.value:\n                    refs.append(obj)\n",
  "            elif isinstance(p, (properties.StrongRefVectorProperty, properties.StrongRefSetProperty)):\n                refs.extend(p.value)\n"))
R('attach any', ('core.py', "        for pid, p in self.property_entries.items():\n            if isinstance(p, (properties.StrongRefProperty,\n                              properties.StrongRefVectorProperty,\n                              properties.StrongRefSetProperty,\n                              properties.StreamProperty)):\n\n                p.attach()",
  "        for p in list(self.property_entries.values()):\n            if not isinstance(p, (properties.StrongRefProperty, properties.StrongRefVectorProperty,\n                                  properties.StrongRefSetProperty, properties.StreamProperty)):\n                continue\n            p.attach()"))
R('vector detach dict', ('properties.py', "        objects = {}\n        for i, obj in enumerate(self):\n            objects[i] = obj\n        self.objects = objects", "        self.objects = dict(enumerate(self))"))
R('set detach comp', ('properties.py', "        objects = {}\n        for key, value in self.items():\n            objects[key] = value\n        self.objects = objects", "        self.objects = {k: v for k, v in self.items()}"))
R('set attach items', ('properties.py', "        for key in self.references:\n            obj = self.objects.get(key, None)\n            if not obj:\n                continue\n            ref = self.index_ref_name(key)", "        for key, obj in list(self.items()):\n            ref = self.index_ref_name(key)"))
R('attach helper', ('properties.py', "            dir_entry = self.parent.dir.get(ref)\n            if dir_entry is None:\n                dir_entry = self.parent.dir.makedir(ref)\n            if obj.dir is not dir_entry:\n                obj.attach(dir_entry)\n\n\n    def __repr__(self):\n        return \"<%s %s to", "            place_object(self.parent.dir, ref, obj)\n\n\n    def __repr__(self):\n        return \"<%s %s to"),
  ('properties.py', "class StrongRefVectorProperty(Property):\n", "def place_object(parent_dir, name, obj):\n    entry = parent_dir.get(name)\n    if entry is None:\n        entry = parent_dir.makedir(name)\n    if obj.dir is not entry:\n        obj.attach(entry)\n\nclass StrongRefVectorProperty(Property):\n"))
R('vector copy slice', ('properties.py', "            p.references = list(self.references)\n            p.index_name = self.index_name\n            p.next", "            p.references = self.references[:]\n            p._index_name = self.index_name\n            p.next"))
R('set copy extend', ('properties.py', "            for value in self.values():\n                c = value.copy(root=parent.root, classdef_cache=cache)\n                p.append(c)\n", "            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self.values()])\n"))
R('prop copy inline', ('properties.py', "        p = self.__class__(parent, pid, self.format, version=PROPERTY_VERSION)\n        p.data = bytes(self.data)\n        return p", "        cls = type(self)\n        result = cls(parent, pid, self.format, version=PROPERTY_VERSION)\n        result.data = self.data\n        return result"))
R('stream copy', ('properties.py', "        while byte_size > 0:\n            d = a.read(read_size)\n            b.write(d)\n            byte_size -= len(d)\n", "        remaining = a.dir.byte_size\n        while remaining > 0:\n            chunk = a.read(read_size)\n            remaining -= len(chunk)\n            b.write(chunk)\n"))
R('stream detach local', ('properties.py', "        stream_path = stream.path()\n        tmp = self.parent.root.manager.create_temp_dir().path()\n        self.dir = self.parent.root.cfb.move(stream_path, tmp + \"/\" + self.stream_name)", "        root = self.parent.root\n        tmp = root.manager.create_temp_dir()\n        moved = root.cfb.move(stream.path(), \"%s/%s\" % (tmp.path(), self.stream_name))\n        self.dir = moved"))
R('walk yield from list', ('core.py', "        for obj in refs:\n            for item, item_streams in obj.walk_references(topdown):\n                yield item, item_streams\n", "        for obj in refs:\n            for pair in obj.walk_references(topdown):\n                yield pair\n"))

# ---- C29
M('C29', 'utils.py', "max_size = size - len(p) - 1 -1", "max_size = size - len(p) - 1")
M('C29', 'utils.py', "max_size = size - len(p) - 1 -1", "max_size = size - 4")
M('C29', 'utils.py', "    if len(name) <= size:\n", "    if len(name) <= size + 2:\n")
M('C29', 'utils.py', "    for i in range(size):\n", "    for i in range(size + 1):\n")
M('C29', 'utils.py', "        new_name = new_name.replace(ch, '-')", "        new_name = new_name.replace(ch, '--')")
M('C29', 'utils.py', "in '/\\\\:!':", "in '\\\\:!':")
M('C29', 'utils.py', "    return \"%s-%s\" % (new_name, p)", "    return \"%s-0x%s\" % (new_name, p)")
M('C29', 'utils.py', "    new_name = squeeze_name(name, max_size)\n", "    new_name = squeeze_name(name, size)\n")
M('C29', 'utils.py', "    return \"%s-%s\" % (new_name, p)", "    return \"%s-%08x\" % (new_name, pid)")
M('C29', 'properties.py', "self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32)", "self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32) + ' data'")
M('C29', 'properties.py', "self.ref = mangle_name(propdef.property_name, self.pid, 32)", "self.ref = mangle_name(propdef.property_name, self.pid, 64)")
M('C29', 'properties.py', "        name = mangle_name(propdef.property_name, self.pid, 32-10)\n        self.data", "        name = mangle_name(propdef.property_name, self.pid, 32-8)\n        self.data")
M('C29', 'properties.py', "    name = mangle_name(property_name, pid, 32-10)\n    p.index_name", "    name = property_name + '-%x' % pid\n    p.index_name")
M('C29', 'properties.py', "        return \"%s{%x}\" % (self.index_name, self.references[key])", "        return \"%s{%08x} \" % (self.index_name, self.references[key])")
M('C29', 'properties.py', "        s = self.parent.dir.touch(self.index_name + \" index\").open(mode='rw')\n", "        s = self.parent.dir.touch(self.index_name + \" index stream\").open(mode='rw')\n")
M('C29', 'file.py', "str(uuid4()).replace('-', '/')", "str(uuid4())")
M('C29', 'file.py', "str(uuid4()).replace('-', '/')", "uuid4().hex")
M('C29', 'utils.py', "            ch = name[len(name) - (size-i)]\n", "            ch = name[len(name) - (size-i):]\n")
R('squeeze slices', ('utils.py', "    half = size//2\n    new_name = \"\"\n    for i in range(size):\n        if i < half:\n            ch = name[i]\n        elif i == half:\n            ch = '-'\n        else:\n            ch = name[len(name) - (size-i)]\n        new_name += ch\n\n    return new_name\n", "    half = size//2\n    tail = size - half - 1\n    return name[:half] + '-' + name[len(name) - tail:]\n"))
R('squeeze neg slice', ('utils.py', "    half = size//2\n    new_name = \"\"\n    for i in range(size):\n        if i < half:\n            ch = name[i]\n        elif i == half:\n            ch = '-'\n        else:\n            ch = name[len(name) - (size-i)]\n        new_name += ch\n\n    return new_name\n", "    half = size//2\n    head, tail = name[:half], name[-(size - half - 1):]\n    return '{}-{}'.format(head, tail)\n"))
R('squeeze list', ('utils.py', "    new_name = \"\"\n    for i in range(size):\n        if i < half:\n            ch = name[i]\n        elif i == half:\n            ch = '-'\n        else:\n            ch = name[len(name) - (size-i)]\n        new_name += ch\n\n    return new_name\n", "    chars = []\n    for i in range(size):\n        if i < half:\n            chars.append(name[i])\n        elif i == half:\n            chars.append('-')\n        else:\n            chars.append(name[len(name) - (size-i)])\n\n    return ''.join(chars)\n"))
R('squeeze inverted', ('utils.py', "    if len(name) <= size:\n        return name\n\n    half", "    length = len(name)\n    if not length > size:\n        return name\n\n    half"))
R('mangle inline', ('utils.py', "    p = \"%x\" % pid\n    max_size = size - len(p) - 1 -1\n    new_name = squeeze_name(name, max_size)\n", "    suffix = \"-%x\" % pid\n    new_name = squeeze_name(name, size - 1 - len(suffix))\n"), ('utils.py', "    return \"%s-%s\" % (new_name, p)", "    return new_name + suffix"))
R('mangle fstring', ('utils.py', "    p = \"%x\" % pid\n", "    p = f\"{pid:x}\"\n"), ('utils.py', "    return \"%s-%s\" % (new_name, p)", "    return f\"{new_name}-{p}\""))
R('mangle chars join', ('utils.py', "    for ch in '/\\\\:!':\n        new_name = new_name.replace(ch, '-')\n", "    new_name = ''.join('-' if ch in '/\\\\:!' else ch for ch in new_name)\n"))
R('size const', ('properties.py', "        name = mangle_name(propdef.property_name, self.pid, 32-10)\n        self.data", "        size = 22\n        name = mangle_name(propdef.property_name, self.pid, size=size)\n        self.data"))
R('ref name fstring', ('properties.py', "        return \"%s{%x}\" % (self.index_name, self.references[key])", "        return f\"{self.index_name}{{{self.references[key]:x}}}\""))
R('index name helper', ('properties.py', "        index_name = self.index_name + \" index\"\n        index_dir = self.parent.dir.get(index_name)\n        if not index_dir:\n            raise AAFPropertyError(\"cannot find index stream: %s\" % index_name)\n\n        s = index_dir.open('r')\n        # read the whole index", "        index_name = '%s index' % self.index_name\n        index_dir = self.parent.dir.get(index_name)\n        if not index_dir:\n            raise AAFPropertyError(\"cannot find index stream: %s\" % index_name)\n\n        s = index_dir.open('r')\n        # read the whole index"))
R('temp dir join', ('file.py', "        return self.root.cfb.makedirs(\"/tmp/\" + str(uuid4()).replace('-', '/'))", "        parts = str(uuid4()).split('-')\n        return self.root.cfb.makedirs('/'.join(['', 'tmp'] + parts))"))

# -- C15 / C19 ---------------------------------------------------------------------------------
T, D = 'types.py', 'metadict.py'
M('C15', T, "return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)", "return TypeDefInt(root or self.root, self.type_name, self.auid, self.size)")
M('C15', T, "return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)", "return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, False)")
M('C15', T, "return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)", "return TypeDefInt(self.root, self.type_name, self.auid, self.size, self.signed)")
M('C15', T, "    def copy(self, root=None):\n        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)\n", "")
M('C15', T, "    def copy(self, root=None):\n        return TypeDefSet(root", "    def copy(self, root=None):\n        return TypeDefVarArray(root")
M('C15', T, "return self.property_entries[PID_INT_SIGNED].data == b\"\\x01\"", "return self.property_entries[PID_INT_SIGNED].data == b\"\\x00\"")
M('C15', T, "        elements = dict(zip(values, names))\n        return elements", "        elements = dict(zip(names, values))\n        return elements")
M('C15', T, "return dict(zip(element_values, element_names))", "return dict(zip(element_names, element_values))")
M('C15', T, "        types = [typedef.auid for typedef in self['MemberTypes'].value]\n        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))", "        types = [typedef.auid for typedef in self['MemberTypes'].value]\n        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(types, names))")
M('C15', T, "        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)", "        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, [])")
M('C15', D, "    def optional(self):\n        return self.property_entries[PID_OPTIONAL]", "    def optional(self):\n        return self.property_entries[PID_UNIQUE]")
M('C15', D, "            properties.add_bool_property(self, PID_OPTIONAL, optional)\n            properties.add_bool_property(self, PID_UNIQUE, unique)", "            properties.add_bool_property(self, PID_OPTIONAL, unique)\n            properties.add_bool_property(self, PID_UNIQUE, optional)")
M('C15', D, "pid, typedef.auid, p.optional, p.unique)", "pid, typedef.auid, p.optional)")
M('C15', D, "pid, typedef.auid, p.optional, p.unique)", "pid, typedef.auid, p.unique, p.optional)")
M('C15', D, "                if pid >= 0x8000:\n                    pid = None\n", "                if pid > 0x8000:\n                    pid = None\n")
M('C15', D, "                if pid >= 0x8000:\n                    pid = None\n", "")
M('C15', D, "            self.typedefs_by_auid[typedef.auid] = typedef\n\n            if ref", "\n            if ref")
M('C15', D, "            self['TypeDefinitions'].append(typedef)\n            self.typedefs_by_name[typedef.type_name] = typedef", "            self.typedefs_by_name[typedef.type_name] = typedef")
M('C15', D, "        typedef = self.lookup_typedef(ext_typedef.auid)\n\n        # create", "        typedef = self.lookup_typedef(ext_typedef.type_name)\n\n        # create")
M('C15', D, "                                          types.TypeDefSet,\n", "")
M('C15', D, "                                          types.TypeDefFixedArray,\n".replace('                                          types.TypeDefFixedArray', 'types.TypeDefFixedArray'), "types.TypeDefStream,\n")
M('C15', D, "            elif isinstance(ext_typedef, types.TypeDefRename):\n                self.register_external_typedef(ext_typedef.renamed_typedef)\n", "")
M('C15', D, "                for t in ext_typedef.member_types:\n                    self.register_external_typedef(t)", "                pass")
M('C15', D, "                    typedef.register_element(v, k)", "                    typedef.register_element(k, v)")
M('C15', D, "                if k not in elements:\n", "                if k in elements:\n")
M('C15', D, "isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum))", "isinstance(ext_typedef, types.TypeDefExtEnum)")
M('C15', D, "        class_chain.reverse()\n        for c in class_chain[1:]:", "        for c in class_chain[:-1]:")
M('C15', D, "                                                  c.parent.auid,\n                                                  c.concrete)", "                                                  c.parent.auid,\n                                                  True)")
M('C15', D, "                                                  c.parent.auid,\n", "                                                  c.auid,\n")
M('C15', D, "            if not classdef:\n                classdef = self.register_classdef(c.class_name", "            if classdef:\n                continue\n            else:\n                classdef = self.register_classdef(c.class_name")
M('C15', 'core.py', "                pdef = new_obj.classdef.lookup_propertydef(p.propertydef.auid)", "                pdef = self.classdef.lookup_propertydef(p.propertydef.auid)")
M('C15', 'core.py', "            if pid >= 0x8000 and root is not self.root:", "            if pid > 0x8000 and root is not self.root:")
M('C15', 'core.py', "            new_obj.property_entries[pid] = p.copy(new_obj, pid, classdef_cache)", "            new_obj.property_entries[pid] = p.copy(new_obj, p.pid, classdef_cache)")
M('C15', 'core.py', "                root.metadict.register_external_classdef(self.classdef)\n", "")
M('C15', 'properties.py', "def add_s64le_array_property(parent, pid, values):\n    p = Property(parent, pid, SF_DATA, PROPERTY_VERSION)\n    p.data = b''\n    for i in values:\n        p.data += encode_s64le(i)", "def add_s64le_array_property(parent, pid, values):\n    p = Property(parent, pid, SF_DATA, PROPERTY_VERSION)\n    p.data = b''\n    for i in values:\n        p.data += encode_u32le(i)")
M('C15', 'properties.py', "        value = AUID(value)\n\n    p.data = value.bytes_le", "        value = AUID(value)\n\n    p.data = value.bytes")
M('C15', T, "        self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)\n", "")
M('C15', T, "        self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)\n", "        self.property_entries[PID_ENUM_VALUES].data = encode_utf16_array(names)\n")
M('C19', D, "        while self.next_pid in self.local_pids:\n            self.next_pid -= 1\n\n", "")
M('C19', D, "        if self.next_pid < 0x8000:", "        if self.next_pid < 0x7fff:")
M('C19', D, "        if self.next_pid < 0x8000:", "        if self.next_pid <= 0x8000:")
M('C19', D, "        self.next_pid = 0xFFFF\n", "        self.next_pid = 0x10000\n")
M('C19', D, "        result = self.next_pid\n        self.next_pid -= 1\n", "        self.next_pid -= 1\n        result = self.next_pid\n")
M('C19', D, "        self.local_pids.add(result)\n        return result", "        return result")
M('C19', D, "        if p:\n            return p\n\n        typedef = str2auid(typedef)", "        typedef = str2auid(typedef)")
M('C19', D, "            self.root.metadict.local_pids.add(pid)\n\n        p = PropertyDef", "            pass\n\n        p = PropertyDef")
M('C19', D, "                if pdef.pid >= 0x8000:\n                    self.local_pids.add(pdef.pid)\n\n                propertydef_by_pid", "                if pdef.pid > 0x8000:\n                    self.local_pids.add(pdef.pid)\n\n                propertydef_by_pid")
M('C19', D, "                if pdef.pid >= 0x8000:\n                    self.local_pids.add(pdef.pid)\n\n                propertydef_by_pid", "                propertydef_by_pid")
M('C19', D, "                    self.resolve_dynamic_pids(classdef)\n                    self['ClassDefinitions'].append(classdef)", "                    self['ClassDefinitions'].append(classdef)")
M('C19', D, "                            prop.pid = pdef.pid\n", "")
M('C19', D, "            self.classdefs_by_auid[classdef.auid] = classdef\n            propertydef_by_pid = {}", "            propertydef_by_pid = {}")
M('C19', D, "        elif class_auid in self.classdefs_by_auid:\n            c = self.classdefs_by_auid[class_auid]\n", "")
M('C19', D, "        self.propertydef_by_pid[pid] = p\n        return p", "        return p")
M('C19', D, "                if pdef.pid in self.local_pids:\n                    pdef.pid = self.next_free_pid()\n                self.local_pids.add(pdef.pid)", "                if pdef.pid in self.local_pids:\n                    pdef.pid = self.next_free_pid()")
M('C19', D, "                if pdef.pid in self.local_pids:\n                    pdef.pid = self.next_free_pid()", "                if pdef.pid not in self.local_pids:\n                    pdef.pid = self.next_free_pid()")
R('pid search as for', (D, "        while self.next_pid in self.local_pids:\n            self.next_pid -= 1\n\n        if self.next_pid < 0x8000:\n            raise ValueError(\"ran out of local pids\")\n\n        result = self.next_pid\n        self.next_pid -= 1\n\n        self.local_pids.add(result)\n        return result", "        for pid in range(0xFFFF, 0x7FFF, -1):\n            if pid not in self.local_pids:\n                self.local_pids.add(pid)\n                return pid\n        raise ValueError(\"ran out of local pids\")"))
R('pid search local', (D, "        while self.next_pid in self.local_pids:\n            self.next_pid -= 1\n\n        if self.next_pid < 0x8000:\n            raise ValueError(\"ran out of local pids\")\n\n        result = self.next_pid\n        self.next_pid -= 1\n\n        self.local_pids.add(result)\n        return result", "        used = self.local_pids\n        pid = self.next_pid\n        while pid in used:\n            pid = pid - 1\n        if not pid >= 0x8000:\n            raise ValueError(\"ran out of local pids\")\n        used.add(pid)\n        self.next_pid = pid - 1\n        return pid"))
R('pid break', (D, "        while self.next_pid in self.local_pids:\n            self.next_pid -= 1\n\n", "        while True:\n            if self.next_pid not in self.local_pids:\n                break\n            self.next_pid -= 1\n\n"))
R('register refs helper', (D, "            elif isinstance(ext_typedef, types.TypeDefRecord):\n                for t in ext_typedef.member_types:\n                    self.register_external_typedef(t)\n\n            elif isinstance(ext_typedef, types.TypeDefRename):\n                self.register_external_typedef(ext_typedef.renamed_typedef)\n\n            elif isinstance(ext_typedef, types.TypeDefEnum):\n                self.register_external_typedef(ext_typedef.element_typedef)\n", "            else:\n                self._register_parts(ext_typedef)\n"),
  (D, "    def register_external_classdef(self, ext_classdef):", "    def _register_parts(self, t):\n        if isinstance(t, types.TypeDefRecord):\n            for member in t.member_types:\n                self.register_external_typedef(member)\n        elif isinstance(t, types.TypeDefRename):\n            self.register_external_typedef(t.renamed_typedef)\n\n    def register_external_classdef(self, ext_classdef):"))
R('typedef entered helper', (D, "            self['TypeDefinitions'].append(typedef)\n            self.typedefs_by_name[typedef.type_name] = typedef\n            self.typedefs_by_auid[typedef.auid] = typedef\n", "            self._enter(typedef)\n"),
  (D, "    def register_external_classdef(self, ext_classdef):", "    def _enter(self, typedef):\n        self.typedefs_by_auid[typedef.auid] = typedef\n        self.typedefs_by_name[typedef.type_name] = typedef\n        self['TypeDefinitions'].append(typedef)\n\n    def register_external_classdef(self, ext_classdef):"))
R('class chain reversed', (D, "        class_chain = list(ext_classdef.relatives())\n        class_chain.reverse()\n        for c in class_chain[1:]:", "        for c in list(reversed(list(ext_classdef.relatives())))[1:]:"))
R('class chain slice', (D, "        class_chain = list(ext_classdef.relatives())\n        class_chain.reverse()\n        for c in class_chain[1:]:", "        class_chain = list(ext_classdef.relatives())[::-1]\n        for c in class_chain[1:]:"))
R('pid ternary', (D, "                pid = p.pid\n\n                if pid >= 0x8000:\n                    pid = None\n", "                pid = p.pid if p.pid < 0x8000 else None\n"))
R('copy locals', (T, "        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)", "        root = root or self.root\n        return TypeDefInt(root, self.type_name, self.auid, size=self.size, signed=self.signed)"))
R('copy class', (T, "        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)", "        element = self.element_typedef\n        return self.__class__(root or self.root, self.type_name, self.auid, element.auid, self.size)"))
R('copy types loop', (T, "        types = [typedef.auid for typedef in self['MemberTypes'].value]\n        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))", "        fields = []\n        for name, typedef in zip(names, self['MemberTypes'].value):\n            fields.append((name, typedef.auid))\n        return TypeDefRecord(root or self.root, self.type_name, self.auid, fields)"))
R('elements comp', (T, "        elements = dict(zip(values, names))\n        return elements", "        return {v: n for v, n in zip(values, names)}"))
R('bool accessor', (D, "        if PID_UNIQUE in self.property_entries:\n            return self.property_entries[PID_UNIQUE].data == b\"\\x01\"\n        return False", "        p = self.property_entries.get(PID_UNIQUE)\n        if p is None:\n            return False\n        return p.data == b\"\\x01\""))
R('pid unpack', (D, "        with BytesIO(self.property_entries[PID_PID].data) as f:\n            return read_u16le(f)", "        f = BytesIO(self.property_entries[PID_PID].data)\n        return read_u16le(f)"))
R('object copy helper', ('core.py', "            if pid >= 0x8000 and root is not self.root:\n                pdef = new_obj.classdef.lookup_propertydef(p.propertydef.auid)\n                assert pdef\n                pid = pdef.pid\n\n            new_obj.property_entries[pid] = p.copy(new_obj, pid, classdef_cache)", "            new_pid = pid if root is self.root else new_obj._local_pid(pid, p)\n            new_obj.property_entries[new_pid] = p.copy(new_obj, new_pid, classdef_cache)"),
  ('core.py', "    def properties(self):\n", "    def _local_pid(self, pid, p):\n        if pid < 0x8000:\n            return pid\n        pdef = self.classdef.lookup_propertydef(p.propertydef.auid)\n        assert pdef\n        return pdef.pid\n\n    def properties(self):\n"))
R('load tables helper', (D, "        for key, typedef in self['TypeDefinitions'].items():\n            self.typedefs_by_name[typedef.type_name] = typedef\n            self.typedefs_by_auid[typedef.auid] = typedef\n", "        self._index_typedefs()\n"),
  (D, "    def resolve_dynamic_pids(self, classdef):", "    def _index_typedefs(self):\n        for typedef in self['TypeDefinitions'].values():\n            self.typedefs_by_auid[typedef.auid] = typedef\n            self.typedefs_by_name[typedef.type_name] = typedef\n\n    def resolve_dynamic_pids(self, classdef):"))
R('load pids comp', (D, "            propertydef_by_pid = {}\n            for pdef in classdef['Properties'].values():\n                if pdef.pid >= 0x8000:\n                    self.local_pids.add(pdef.pid)\n\n                propertydef_by_pid[pdef.pid] = pdef\n\n            classdef.propertydef_by_pid = propertydef_by_pid\n", "            propertydefs = list(classdef['Properties'].values())\n            self.local_pids.update(p.pid for p in propertydefs if p.pid >= 0x8000)\n            classdef.propertydef_by_pid = dict((p.pid, p) for p in propertydefs)\n"))
R('register known first', (D, "        p = self.property_entries.get(PID_PROPERTIES, {}).get(property_auid, None)\n        if p:\n            return p\n\n        typedef = str2auid", "        known = self.property_entries.get(PID_PROPERTIES, {})\n        if property_auid in known:\n            return known[property_auid]\n\n        typedef = str2auid"))
R('classdef lookup', (D, "        if name in self.classdefs_by_name:\n            c = self.classdefs_by_name[name]\n        elif class_auid in self.classdefs_by_auid:\n            c = self.classdefs_by_auid[class_auid]\n        else:\n            c = ClassDef(", "        c = self.classdefs_by_name.get(name) or self.classdefs_by_auid.get(class_auid)\n        if c is None:\n            c = ClassDef("))

# -- C23 identifiers ------------------------------------------------------------------------------
AU, MB, UT = 'auid.py', 'mobid.py', 'utils.py'
M('C23', AU, "self.bytes_le = bytearray(b[4-1::-1] + b[6-1:4-1:-1] + b[8-1:6-1:-1] + b[8:])", "self.bytes_le = bytearray(b[4-1::-1] + b[6-1:4-1:-1] + b[6:8] + b[8:])")
M('C23', AU, "        self.bytes_le = bytearray(value[4-1::-1]    + value[6-1:4-1:-1] +\n                                  value[8-1:6-1:-1] + value[8:])", "        self.bytes_le = bytearray(value[4-1::-1]    + value[8-1:6-1:-1] +\n                                  value[6-1:4-1:-1] + value[8:])")
M('C23', AU, "        return bytearray(self.bytes_le[4-1::-1]    + self.bytes_le[6-1:4-1:-1] +", "        return bytearray(self.bytes_le[4-1::-1]    + self.bytes_le[4:6] +")
M('C23', AU, "        num += self.bytes_le[ 5] << 88", "        num += self.bytes_le[ 5] << 80")
M('C23', AU, "        num += self.bytes_le[ 6] << 64\n        num += self.bytes_le[ 7] << 72", "        num += self.bytes_le[ 7] << 64\n        num += self.bytes_le[ 6] << 72")
M('C23', AU, "            self.bytes_le = bytearray(hex.bytes_le)", "            self.bytes_le = hex.bytes_le")
M('C23', AU, "            self.bytes_le = bytearray(bytes_le)", "            self.bytes_le = bytes_le")
M('C23', AU, "            if len(hex) != 32:", "            if len(hex) > 32:")
M('C23', AU, "                self.bytes_le = bytearray(uuid.UUID(int=int).bytes_le)", "                self.bytes_le = bytearray(uuid.UUID(int=int).bytes)")
M('C23', AU, "        return uuid.UUID(bytes_le=bytes(self.bytes_le))", "        return uuid.UUID(bytes=bytes(self.bytes_le))")
M('C23', AU, "        value += self.bytes_le[2] << 16\n        value += self.bytes_le[3] << 24", "        value += self.bytes_le[2] << 16\n        value += self.bytes_le[4] << 24")
M('C23', AU, "        value  = self.bytes_le[6]\n", "        value  = self.bytes_le[5]\n")
M('C23', AU, "            return self.bytes_le == other.bytes_le", "            return self.bytes_le[:8] == other.bytes_le[:8]")
M('C23', AU, "            return self.int < other.int", "            return self.int <= other.int")
M('C23', AU, "            hex[:8], hex[8:12], hex[12:16], hex[16:20], hex[20:])", "            hex[:8], hex[8:12], hex[12:16], hex[16:24], hex[24:])")
M('C23', AU, "        hex = '%032x' % self.int\n", "        hex = '%032x' % uuid.UUID(bytes=bytes(self.bytes_le)).int\n")
M('C23', AU, "            hex = hex.strip('{}').replace('-', '')", "            hex = hex.replace('-', '')")
M('C23', MB, "        self.bytes_le[16:] = value.bytes_le", "        self.bytes_le[16:] = bytes(value.bytes)")
M('C23', MB, "        struct.pack_into(str('12B'), self.bytes_le, 0, *value)", "        struct.pack_into(str('12B'), self.bytes_le, 1, *value)")
M('C23', MB, "        return self.bytes_le[0:12]", "        return self.bytes_le[0:13]")
M('C23', MB, "    def instanceMid(self, value):\n        self.bytes_le[14] = value", "    def instanceMid(self, value):\n        self.bytes_le[15] = value")
M('C23', MB, "        return unpack_u16le_from(self.bytes_le, 22)", "        return unpack_u16le_from(self.bytes_le, 20)")
M('C23', MB, "        struct.pack_into(str('<I'), self.bytes_le, 16, value)", "        struct.pack_into(str('>I'), self.bytes_le, 16, value)")
M('C23', MB, "        self.Data3 = material.get('Data3', 0)", "        self.Data3 = material.get('Data2', 0)")
M('C23', MB, "                'instanceMid': self.instanceMid,\n                'instanceLow': self.instanceLow,", "                'instanceMid': self.instanceLow,\n                'instanceLow': self.instanceMid,")
M('C23', MB, "        return int_from_bytes(self.bytes_le, byte_order='big')", "        return int_from_bytes(self.bytes_le, byte_order='little')")
M('C23', MB, "bytes_from_int(value, 32, byte_order='big')", "bytes_from_int(value, 31, byte_order='big')")
M('C23', MB, "            return self.int >= other.int", "            return self.int > other.int")
M('C23', MB, "        return hash(bytes(self.bytes_le))", "        return hash(id(self))")
M('C23', MB, "        return hash(bytes(self.bytes_le))", "        return hash(self.bytes_le)")
M('C23', MB, "            return self.bytes_le == other.bytes_le", "            return self.material == other.material")
M('C23', MB, "                 self.Data1, self.Data2, self.Data3)\n", "                 self.Data1, self.Data3, self.Data2)\n")
M('C23', MB, "                 self.instanceHigh, self.instanceMid, self.instanceLow,\n                 self.Data1", "                 self.instanceHigh, self.instanceLow, self.instanceMid,\n                 self.Data1")
M('C23', MB, "             \"%08x.%04x%04x.%02x%02x%02x%02x.%02x%02x%02x%02x\"", "             \"%08x.%04x%04x.%02x%02x%02x%02x.%02x%02x%02x%x\"")
M('C23', MB, "            self.Data1 = int(s[48:56], 16)", "            self.Data1 = int(s[46:54], 16)")
M('C23', MB, "            start = 48\n", "            start = 50\n")
M('C23', MB, "                   data[4] == 0x7F and data[5] == 0x7F):", "                   data[4] == 0x7F):")
M('C23', MB, "        if (SMPTELabel[11] == 0x00 and\n            Data4[0]", "        if (Data4[0]")
M('C23', MB, "        self.length = int(s[24:26], 16)", "        self.length = int(s[22:24], 16)")
M('C23', MB, "        assert len(s) == 64\n", "")
M('C23', MB, "    m.length = 0x13 ", "    m.length = 0x33 ")
M('C23', MB, "    m.material = uuid.uuid4() #", "    m.material = uuid.UUID(int=0) #")
M('C23', MB, "            self.bytes_le = bytearray(bytes_le)", "            self.bytes_le = bytes_le")
M('C23', UT, "            num += byte << ((length-i) * 8)", "            num += byte << (i * 8)")
M('C23', UT, "        v = bytearray((num >> (length - 1 - i) * 8) & 0xff for i in range(length))", "        v = bytearray((num >> (length - i) * 8) & 0xff for i in range(length))")
M('C23', UT, "        result += item.bytes_le\n", "        result += item.bytes_be\n")
M('C23', UT, "    value += buffer[offset+2] << 16\n    value += buffer[offset+3] << 24\n    return value\n\ndef unpack_u64le_from", "    value += buffer[offset+2] << 24\n    value += buffer[offset+3] << 16\n    return value\n\ndef unpack_u64le_from")
R('auid int loop', (AU, "        num  = self.bytes_le[15]\n        num += self.bytes_le[14] << 8\n", "        num = 0\n        for shift, i in enumerate((15, 14)):\n            num |= self.bytes_le[i] << (8 * shift)\n"))
R('auid int via uuid', (AU, "        return '%032x' % self.int\n", "        return self.uuid.hex\n"))
R('auid int from fields', (AU, "        value  = self.bytes_le[0]\n        value += self.bytes_le[1] << 8\n        value += self.bytes_le[2] << 16\n        value += self.bytes_le[3] << 24\n        return value", "        return struct.unpack_from(str('<I'), self.bytes_le, 0)[0]"))
R('auid data2 from_bytes', (AU, "        value  = self.bytes_le[4]\n        value += self.bytes_le[5] << 8\n        return value", "        low, high = self.bytes_le[4:6]\n        return low | high << 8"))
R('auid permutation table', (AU, "    @property\n    def bytes_be(self):\n        return bytearray(self.bytes_le[4-1::-1]    + self.bytes_le[6-1:4-1:-1] +\n                         self.bytes_le[8-1:6-1:-1] + self.bytes_le[8:])", "    @staticmethod\n    def _swap(data):\n        order = (3, 2, 1, 0, 5, 4, 7, 6) + tuple(range(8, 16))\n        return bytearray(data[i] for i in order)\n\n    @property\n    def bytes_be(self):\n        return self._swap(self.bytes_le)"),
  (AU, "        self.bytes_le = bytearray(value[4-1::-1]    + value[6-1:4-1:-1] +\n                                  value[8-1:6-1:-1] + value[8:])", "        self.bytes_le = self._swap(value)"),
  (AU, "            b = bytearray.fromhex(hex)\n            self.bytes_le = bytearray(b[4-1::-1] + b[6-1:4-1:-1] + b[8-1:6-1:-1] + b[8:])", "            self.bytes_le = self._swap(bytearray.fromhex(hex))"))
R('auid repr uuid', (AU, "        hex = '%032x' % self.int\n        return '%s-%s-%s-%s-%s' % (\n            hex[:8], hex[8:12], hex[12:16], hex[16:20], hex[20:])", "        h = self.hex\n        return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))"))
R('auid repr std', (AU, "        hex = '%032x' % self.int\n        return '%s-%s-%s-%s-%s' % (\n            hex[:8], hex[8:12], hex[12:16], hex[16:20], hex[20:])", "        return str(self.uuid)"))
R('auid eq early', (AU, "        if isinstance(other, (AUID, uuid.UUID)):\n            return self.bytes_le == other.bytes_le\n        return NotImplemented", "        if not isinstance(other, (AUID, uuid.UUID)):\n            return NotImplemented\n        return bytes(self.bytes_le) == bytes(other.bytes_le)"))
R('auid eq int', (AU, "            return self.bytes_le == other.bytes_le", "            return self.int == other.int"))
R('auid ne', (AU, "    def __lt__(self, other):", "    def __ne__(self, other):\n        return not self == other\n\n    def __lt__(self, other):"))
R('mobid from_dict order', (MB, "        self.Data4 = material.get(\"Data4\", [0 for i in range(8)])\n        self.SMPTELabel = d.get(\"SMPTELabel\", [0 for i in range(12)])", "        self.SMPTELabel = d.get(\"SMPTELabel\", [0] * 12)\n        self.Data4 = material.get(\"Data4\", [0] * 8)"))
R('mobid label slice', (MB, "        struct.pack_into(str('12B'), self.bytes_le, 0, *value)", "        self.bytes_le[0:12] = bytearray(value)"))
R('mobid data1 slice', (MB, "        struct.pack_into(str('<I'), self.bytes_le, 16, value)", "        self.bytes_le[16:20] = struct.pack(str('<I'), value)"))
R('mobid data2 bytes', (MB, "        struct.pack_into(str('<H'), self.bytes_le, 20, value)", "        self.bytes_le[20] = value & 0xff\n        self.bytes_le[21] = value >> 8"))
R('mobid data1 struct', (MB, "        return unpack_u32le_from(self.bytes_le, 16)", "        return struct.unpack(str('<I'), bytes(self.bytes_le[16:20]))[0]"))
R('mobid struct object', (MB, "        return unpack_u16le_from(self.bytes_le, 20)", "        return MOBID_STRUCT.unpack_from(self.bytes_le)[17]"))
R('mobid urn parse helper', (MB, "        SMPTELabel = [0 for i in range(12)]\n        start = 0\n        for i in range(12):\n            end = start + 2\n            v = s[start:end]\n            SMPTELabel[i] = int(v, 16)\n            start = end\n        self.SMPTELabel = SMPTELabel", "        SMPTELabel = [int(s[i:i + 2], 16) for i in range(0, 24, 2)]\n        self.SMPTELabel = SMPTELabel"))
R('mobid urn parse bytes', (MB, "        start = 32\n        data = [0 for i in range(6)]\n        for i in range(6):\n            end = start + 2\n            v = s[start:end]\n            data[i] = int(v, 16)\n            start = end\n", "        data = bytearray.fromhex(s[32:44])\n"))
R('mobid urn special helper', (MB, "        if (SMPTELabel[11] == 0x00 and\n            Data4[0] == 0x06 and Data4[1] == 0x0E and\n            Data4[2] == 0x2B and Data4[3] == 0x34 and\n            Data4[4] == 0x7F and Data4[5] == 0x7F):", "        if self._half_swapped(SMPTELabel, Data4):"),
  (MB, "    @property\n    def urn(self):", "    @staticmethod\n    def _half_swapped(label, data):\n        return label[11] == 0 and list(data[:6]) == [0x06, 0x0E, 0x2B, 0x34, 0x7F, 0x7F]\n\n    @property\n    def urn(self):"))
R('mobid urn format', (MB, "            f = \"urn:smpte:umid:%02x%02x%02x%02x.%02x%02x%02x%02x.%02x%02x%02x%02x.\" + \\\n             \"%02x\"  + \\\n             \"%02x%02x%02x.\" + \\\n             \"%08x.%04x%04x.%02x%02x%02x%02x.%02x%02x%02x%02x\"", "            f = \"urn:smpte:umid:\" + \".\".join([\"%02x%02x%02x%02x\"] * 4) + \".%08x.%04x%04x.\" + \".\".join([\"%02x\" * 4] * 2)"))
R('mobid to_dict', (MB, "        material = {'Data1': self.Data1,\n                    'Data2': self.Data2,\n                    'Data3': self.Data3,\n                    'Data4': list(self.Data4)\n                    }\n", "        material = dict((key, getattr(self, key)) for key in ('Data1', 'Data2', 'Data3'))\n        material['Data4'] = list(self.Data4)\n"))
R('mobid order bytes', (MB, "            return self.int < other.int", "            return other.int > self.int"))
R('mobid hash eq', (MB, "            return self.bytes_le == other.bytes_le", "            return bytes(self.bytes_le) == bytes(other.bytes_le)"))
R('mobid unique bytes', (MB, "    m.instanceHigh = 0x00\n    m.instanceMid = 0x00\n    m.instanceLow = 0x00\n", "    m.instanceHigh = m.instanceMid = m.instanceLow = 0\n"))
R('int_from_bytes reversed', (UT, "        length = len(data) - 1\n        for i, byte in enumerate(data):\n            num += byte << ((length-i) * 8)\n        return num", "        for byte in data:\n            num = (num << 8) | byte\n        return num"))
R('bytes_from_int list', (UT, "        v = bytearray((num >> (length - 1 - i) * 8) & 0xff for i in range(length))\n        return bytes(v)", "        v = bytearray(length)\n        for i in range(length):\n            v[length - 1 - i] = num & 0xff\n            num >>= 8\n        return bytes(v)"))
R('auid array join', (UT, "    result = b\"\"\n    for item in values:\n        if not isinstance(item, auid.AUID):\n            item = auid.AUID(item)\n        result += item.bytes_le\n    return result", "    items = [item if isinstance(item, auid.AUID) else auid.AUID(item) for item in values]\n    return b\"\".join(bytes(item.bytes_le) for item in items)"))
R('u32 loop', (UT, "    value  = buffer[offset]\n    value += buffer[offset+1] << 8\n    value += buffer[offset+2] << 16\n    value += buffer[offset+3] << 24\n    return value\n\ndef unpack_u64le_from", "    value = 0\n    for i in range(4):\n        value |= buffer[offset + i] << (8 * i)\n    return value\n\ndef unpack_u64le_from"))

# -- C26 values -----------------------------------------------------------------------------------
RA = 'rational.py'
M('C26', T, "            fmt = '%dB'", "            fmt = '<%dH'")
M('C26', T, '            fmt = "<%dH"', '            fmt = ">%dH"')
M('C26', T, '            fmt = "<%dI"', '            fmt = "<%dL"\n            fmt = fmt.replace("<", "@") if elements > 1 else fmt')
M('C26', T, "        if self.signed:\n            fmt = fmt.lower()", "        if self.signed and self.size > 1:\n            fmt = fmt.lower()")
M('C26', T, "        if self.signed:\n            fmt = fmt.lower()", "        if self.signed and elements == 1:\n            fmt = fmt.lower()")
M('C26', T, "        fmt = fmt % elements\n", "        fmt = fmt % min(elements, 255)\n")
M('C26', T, "        return data == b'\\x01'\n" if False else "            return data == b'\\x01'\n\n        typedef", "            return data != b'\\x01'\n\n        typedef")
M('C26', T, "            return b'\\x01' if data else b'\\x00'", "            return b'\\x01\\x00' if data else b'\\x00\\x00'")
M('C26', T, "            if index == data:\n                return typedef.encode(index)\n\n        raise", "            if index == data:\n                return typedef.encode(index + 1)\n\n        raise")
M('C26', T, "        raise AAFPropertyError(\"invalid enum: %s\" % str(data))", "        return typedef.encode(0)")
M('C26', T, '        fmt = b"<%dq" % element_count\n', '        fmt = b"<%dQ" % element_count\n')
M('C26', T, '        fmt = b"<%dq" % len(values)\n', '        fmt = b">%dq" % len(values)\n')
M('C26', T, "        for val, name in sorted(self.elements.items()):\n            if val == element_value:", "        for val, name in sorted(self.elements.items())[1:]:\n            if val == element_value:")
M('C26', T, '            yield data[start:i].decode("utf-16le")\n            start = i+2', '            yield data[start:i].decode("utf-16le")\n            start = i+1')
M('C26', T, "    for i in range(0, len(data), 2):\n        if data[i] == 0x00 and data[i+1] == 0x00:", "    for i in range(0, len(data), 2):\n        if data[i] == 0x00:")
M('C26', T, "    for i in range(0, len(data), 2):\n        if data[i] == 0x00 and data[i+1] == 0x00:", "    for i in range(0, len(data) - 1, 1):\n        if data[i] == 0x00 and data[i+1] == 0x00:")
M('C26', T, "        return self.element_typedef.byte_size * self.size", "        return self.element_typedef.byte_size * (self.size + 1)")
M('C26', T, "            bytes_left = (element_count - count) * byte_size", "            bytes_left = element_count - count")
M('C26', T, "            if i >= element_count:", "            if i > element_count:")
M('C26', T, "            if i >= element_count:\n                raise AAFPropertyError(\"too many elements for fixed array: expected %d elements\" % element_count)\n                break", "            if i >= element_count:\n                break")
M('C26', T, "                result += b'\\0'\n                bytes_left -= 1", "                result += b'\\xff'\n                bytes_left -= 1")
M('C26', T, "            return list(unpack(fmt, data))", "            return list(unpack(fmt, data))[::-1]")
M('C26', T, "            return list(unpack(fmt, data))", "            return sorted(unpack(fmt, data))")
M('C26', T, "            return pack(fmt, *value)\n\n        result = b''", "            return pack(fmt.upper(), *[abs(v) for v in value])\n\n        result = b''")
M('C26', T, "        elements = len(data)//byte_size\n        start = 0", "        elements = len(data)//byte_size - 1\n        start = 0")
M('C26', T, "        count = len(data) // byte_size\n        start = 0\n        result = set()", "        count = len(data) // byte_size\n        start = byte_size\n        result = set()")
M('C26', T, "        for item in set_data:\n            result += typedef.encode(item)", "        for item in set_data:\n            result = typedef.encode(item)")
M('C26', T, "            end = start + typedef.byte_size\n            result[key] = typedef.decode(data[start:end])\n            start = end", "            end = start + typedef.byte_size\n            result[key] = typedef.decode(data[start:end])\n            start = end + typedef.byte_size % 2")
M('C26', T, "        for key, typedef_name in self.fields:\n            typedef = self.root.metadict.lookup_typedef(typedef_name)\n            value = typedef.encode(data[key])", "        for key, typedef_name in sorted(self.fields):\n            typedef = self.root.metadict.lookup_typedef(typedef_name)\n            value = typedef.encode(data[key])")
M('C26', T, "            t = {'hour' : data.hour,\n                 'minute' : data.minute,\n                 'second' : data.second,", "            t = {'hour' : data.hour,\n                 'minute' : data.second,\n                 'second' : data.minute,")
M('C26', T, "            d = {'year' : data.year,\n                 'month' : data.month,\n                 'day': data.day}", "            d = {'year' : data.year,\n                 'month' : data.day,\n                 'day': data.month}")
M('C26', T, "            result += f[0].encode(data.date())\n\n            #time\n            result += f[1].encode(data.time())", "            result += f[0].encode(data.date())\n\n            #time\n            result += f[1].encode(data.time().replace(second=0))")
M('C26', T, "            data = {'Numerator': r.numerator, 'Denominator':r.denominator }", "            data = {'Numerator': r.denominator, 'Denominator':r.numerator }")
M('C26', T, "            return data.bytes_le\n\n        # AUID", "            return data.bytes_le[:31] + b'\\0'\n\n        # AUID")
M('C26', T, "        # AUID\n        if self.auid == AUID_AUID:\n            return AUID(bytes_le=data)", "        # AUID\n        if self.auid == AUID_AUID:\n            return AUID(bytes_be=data)" )
M('C26', T, "    def byte_size(self):\n        # an AUID\n        return 16", "    def byte_size(self):\n        # an AUID\n        return 32")
M('C26', T, "                if value.lower() == data.lower():\n                    return key.bytes_le", "                if value.lower() == data.lower():\n                    return key.bytes_be")
M('C26', T, "                if value.lower() == data.lower():", "                if value.lower().startswith(data.lower()[:1]):")
M('C26', T, "        raise ValueError(\"invalid ext enum value: %s\" % str(data))", "        return AUID(int=0).bytes_le")
M('C26', T, "        result = self.elements.get(v, None)\n        if result is None:\n            return v", "        result = self.elements.get(v, None)\n        if result is None:\n            return self.elements[v]")
M('C26', T, "        assert byte_order == b'\\x4c' # little endian\n", "")
M('C26', T, "        result = typedef.decode(data[17:])", "        result = typedef.decode(data[16:])")
M('C26', T, "            type_auid = typedef.auid\n\n        elif isinstance(data, (str, unicode)):", "            type_auid = AUID(\"01010700-0000-0000-060e-2b3401040101\")\n\n        elif isinstance(data, (str, unicode)):")
M('C26', T, "            if typedef is None:\n                raise AAFPropertyError(\"unable to find typedef: %s\" % (str(data_typedef)))\n            type_auid = typedef.auid", "            if typedef is None:\n                typedef = self.root.metadict.lookup_typedef('aafInt32')\n            type_auid = typedef.auid")
M('C26', T, "        if typedef is None:\n            typedef = self.root.metadict.lookup_typedef(type_auid)\n        result = byte_order", "        typedef = self.root.metadict.lookup_typedef(type_auid if data_typedef is None else 'aafInt32')\n        result = byte_order")
M('C26', T, "    def decode(self, data):\n        return self.renamed_typedef.decode(data)", "    def decode(self, data):\n        return self.renamed_typedef.decode(data[::-1])")
M('C26', RA, "                numerator.numerator * denominator.denominator,\n                denominator.numerator * numerator.denominator", "                numerator.numerator * denominator.denominator,\n                abs(denominator.numerator) * numerator.denominator")
M('C26', RA, "                self._numerator = numerator.numerator\n                self._denominator = numerator.denominator\n                return self", "                self._numerator = numerator.numerator\n                self._denominator = 1\n                return self")
M('C26', RA, "            raise ZeroDivisionError('Fraction(%s, 0)' % numerator)", "            denominator = 1")
M('C26', UT, "    (result, ) = unpack(b\">i\", f.read(4))", "    (result, ) = unpack(b\">I\", f.read(4))")
M('C26', UT, "    (result, ) = unpack(b\"<Q\", f.read(8))", "    (result, ) = unpack(b\"<q\", f.read(8))")
M('C26', UT, "    return f.write(pack(b\"<I\", value))", "    return f.write(pack(b\"=I\", value & 0x7fffffff))")
M('C26', UT, "    return data.encode(\"utf-16le\") + b\"\\x00\\x00\"", "    return data.encode(\"utf-16le\")")
M('C26', UT, "        return data.decode('utf-16le', 'backslashreplace').split(u'\\x00')[0]", "        return data.decode('utf-16le', 'backslashreplace').rstrip(u'\\x00')")
M('C26', UT, "    return data.encode(\"utf-16le\") + b\"\\x00\\x00\"", "    return data.encode(\"utf-16be\") + b\"\\x00\\x00\"")

R('int formats table', (T, "        fmt = \"\"\n        if self.size == 1:\n            fmt = '%dB'\n        elif self.size == 2:\n            fmt = \"<%dH\"\n        elif self.size == 4:\n            fmt = \"<%dI\"\n        elif self.size == 8:\n            fmt = \"<%dQ\"\n        else:\n            raise AAFPropertyError(\"unknown integer size: %d\" % self.size)\n        fmt = fmt % elements\n        if self.signed:\n            fmt = fmt.lower()\n\n        return str(fmt)",
  "        codes = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}\n        size = self.size\n        if size not in codes:\n            raise AAFPropertyError(\"unknown integer size: %d\" % size)\n        code = codes[size]\n        if self.signed:\n            code = code.lower()\n        return str('<{}{}'.format(elements, code))"))
R('int decode from_bytes', (T, "        (result,) = unpack(self.pack_format(), data)\n        return result", "        return unpack(self.pack_format(), data)[0]"))
R('int decode int.from_bytes', (T, "        (result,) = unpack(self.pack_format(), data)\n        return result", "        return int.from_bytes(bytes(data), 'little', signed=self.signed)"))
R('int encode to_bytes', (T, "        return pack(self.pack_format(), value)\n\n\nPID_STRONGREF", "        return value.to_bytes(self.size, 'little', signed=self.signed)\n\n\nPID_STRONGREF"))
R('fixed ljust', (T, "        # zero out remaining bytes\n        if count < element_count:\n            bytes_left = (element_count - count) * byte_size\n            while bytes_left:\n                result += b'\\0'\n                bytes_left -= 1\n\n        return result", "        return result.ljust(element_count * byte_size, b'\\0')"))
R('fixed padding multiply', (T, "            while bytes_left:\n                result += b'\\0'\n                bytes_left -= 1\n", "            result += b'\\0' * bytes_left\n"))
R('fixed join', (T, "        result = b\"\"\n        count = 0\n\n        for i, item in enumerate(data):\n            if i >= element_count:\n                raise AAFPropertyError(\"too many elements for fixed array: expected %d elements\" % element_count)\n                break\n            result += element_typedef.encode(item)\n            count += 1\n",
  "        items = list(data)\n        count = len(items)\n        if count > element_count:\n            raise AAFPropertyError(\"too many elements for fixed array: expected %d elements\" % element_count)\n        result = b\"\".join([element_typedef.encode(item) for item in items])\n"))
R('fixed decode comprehension', (T, "        start = 0\n        byte_size = element_typedef.byte_size\n        result = []\n        for i in range(self.size):\n            end = start + byte_size\n            result.append(element_typedef.decode(data[start:end]))\n            start = end\n\n        return result", "        n = element_typedef.byte_size\n        return [element_typedef.decode(data[i * n:(i + 1) * n]) for i in range(self.size)]"))
R('var decode step', (T, "        byte_size = element_typedef.byte_size\n        elements = len(data)//byte_size\n        start = 0\n        result = []\n        for i in range(elements):\n            end = start + byte_size\n            result.append(element_typedef.decode(data[start:end]))\n            start = end\n        return result", "        step = element_typedef.byte_size\n        result = []\n        for start in range(0, len(data) - len(data) % step, step):\n            result.append(element_typedef.decode(data[start:start + step]))\n        return result"))
R('var encode bytearray', (T, "        result = b''\n\n        for item in value:\n            result += element_typedef.encode(item)\n\n        return result", "        result = bytearray()\n        for item in value:\n            result.extend(element_typedef.encode(item))\n        return bytes(result)"))
R('set decode comprehension', (T, "        count = len(data) // byte_size\n        start = 0\n        result = set()\n        for i in range(count):\n            end = start + byte_size\n            v = typedef.decode(data[start:end])\n            result.add(v)\n            start = end\n\n        return result", "        return set(typedef.decode(data[i:i + byte_size]) for i in range(0, len(data) // byte_size * byte_size, byte_size))"))
R('set encode join', (T, "        set_data = set(data)\n        result = b\"\"\n        for item in set_data:\n            result += typedef.encode(item)\n\n        return result", "        return b\"\".join(map(typedef.encode, set(data)))"))
R('enum elements pairs', (T, "        names = list(iter_utf16_array(self.property_entries[PID_ENUM_NAMES].data))\n        element_count = len(names)\n        fmt = b\"<%dq\" % element_count\n        values = unpack(fmt, self.property_entries[PID_ENUM_VALUES].data)\n        elements = dict(zip(values, names))\n        return elements", "        names = list(iter_utf16_array(self.property_entries[PID_ENUM_NAMES].data))\n        values = unpack(str('<{}q').format(len(names)), self.property_entries[PID_ENUM_VALUES].data)\n        result = {}\n        for value, name in zip(values, names):\n            result[value] = name\n        return result"))
R('enum encode any', (T, "            if value == data:\n                return typedef.encode(index)\n            if index == data:\n                return typedef.encode(index)\n\n        raise", "            if data in (value, index):\n                return typedef.encode(index)\n\n        raise"))
R('enum boolean constant', (T, "            return b'\\x01' if data else b'\\x00'", "            return pack(b'B', 1 if data else 0)"))
R('utf16 array by split', (T, "    start = 0\n    data = bytearray(data)\n    for i in range(0, len(data), 2):\n        if data[i] == 0x00 and data[i+1] == 0x00:\n            yield data[start:i].decode(\"utf-16le\")\n            start = i+2", "    data = bytearray(data)\n    begin = 0\n    pos = 0\n    while pos < len(data):\n        if not (data[pos] or data[pos + 1]):\n            yield bytes(data[begin:pos]).decode(\"utf-16-le\")\n            begin = pos + 2\n        pos += 2"))
R('record decode helper', (T, "        start = 0\n        result = {}\n\n        for key, typedef_name in self.fields:\n            typedef = self.root.metadict.lookup_typedef(typedef_name)\n\n            end = start + typedef.byte_size\n            result[key] = typedef.decode(data[start:end])\n            start = end\n", "        result = self._decode_fields(data)\n"),
  (T, "    def decode(self, data):\n\n        # MobID", "    def _decode_fields(self, data):\n        offset, result = 0, {}\n        for key, name in self.fields:\n            typedef = self.root.metadict.lookup_typedef(name)\n            size = typedef.byte_size\n            result[key] = typedef.decode(data[offset:offset + size])\n            offset += size\n        return result\n\n    def decode(self, data):\n\n        # MobID"))
R('record encode join', (T, "        for key, typedef_name in self.fields:\n            typedef = self.root.metadict.lookup_typedef(typedef_name)\n            value = typedef.encode(data[key])\n            result+=value\n\n        return result", "        lookup = self.root.metadict.lookup_typedef\n        return result + b\"\".join(lookup(name).encode(data[key]) for key, name in self.fields)"))
R('record byte_size sum', (T, "        size = 0\n        for key, typedef_name in self.fields:\n            typedef = self.root.metadict.typedefs_by_name[typedef_name]\n            size += typedef.byte_size\n", "        size = sum(self.root.metadict.typedefs_by_name[n].byte_size for k, n in self.fields)\n"))
R('date dict inline', (T, "            d = {'year' : data.year,\n                 'month' : data.month,\n                 'day': data.day}\n            # print (d)\n            data = d", "            data = dict((n, getattr(data, n)) for n in ('year', 'month', 'day'))"))
R('date decode keywords', (T, "                d = datetime.date(**result)\n                return d", "                return datetime.date(result['year'], result['month'], result['day'])"))
R('time decode keywords', (T, "                t = datetime.time(result['hour'],\n                                result['minute'],\n                                result['second'],", "                t = datetime.time(result['hour'],\n                                minute=result['minute'],\n                                second=result['second'],\n                                microsecond="))
R('rational to dict', (T, "            r = AAFRational(data)\n            data = {'Numerator': r.numerator, 'Denominator':r.denominator }", "            if not isinstance(data, AAFRational):\n                data = AAFRational(data)\n            data = dict(Numerator=data.numerator, Denominator=data.denominator)"))
R('extenum encode split', (T, "        for key, value in self.elements.items():\n            if isinstance(data, (AUID, UUID)):\n                if data == key:\n                    return key.bytes_le\n            else:\n\n                if value.lower() == data.lower():\n                    return key.bytes_le", "        by_id = isinstance(data, (AUID, UUID))\n        for key, value in self.elements.items():\n            if by_id and data == key or not by_id and value.lower() == data.lower():\n                return key.bytes_le"))
R('extenum decode in', (T, "        result = self.elements.get(v, None)\n        if result is None:\n            return v\n\n        return result", "        return self.elements.get(v, v)"))
R('auid list slices', (T, "    with BytesIO(data) as f:\n        result = []\n        while True:\n            d = f.read(16)\n            if not d:\n                break\n\n            if len(d) == 16:\n                yield AUID(bytes_le=d)\n            else:\n                raise Exception(\"auid length wrong: %d\" % len(d))", "    for i in range(0, len(data), 16):\n        d = data[i:i + 16]\n        if len(d) != 16:\n            raise Exception(\"auid length wrong: %d\" % len(d))\n        yield AUID(bytes_le=d)"))
R('indirect default typedef helper', (T, "        result = byte_order\n        result += type_auid.bytes_le\n        result += typedef.encode(data)\n        return result", "        return byte_order + bytes(type_auid.bytes_le) + typedef.encode(data)"))
R('rational init helper', (RA, "                self._numerator = numerator.numerator\n                self._denominator = numerator.denominator\n                return self", "                return cls._of(self, numerator.numerator, numerator.denominator)"),
  (RA, "    def __new__(cls, numerator=0, denominator=None):", "    @staticmethod\n    def _of(self, n, d):\n        self._numerator, self._denominator = n, d\n        return self\n\n    def __new__(cls, numerator=0, denominator=None):"))
R('read_u16le indexing', (UT, "    (result, ) = unpack(b\"<H\", f.read(2))\n    return result", "    return unpack(b\"<H\", f.read(2))[0]"))
R('read_u32be helper', (UT, "    (result, ) = unpack(b\">I\", f.read(4))\n    return result", "    data = f.read(4)\n    return unpack(str(\">I\"), data)[0]"))
R('encode utf16 join', (UT, "    return data.encode(\"utf-16le\") + b\"\\x00\\x00\"", "    return (data + u\"\\x00\").encode(\"utf-16le\")"))
R('decode utf16 partition', (UT, "        return data.decode('utf-16le', 'backslashreplace').split(u'\\x00')[0]", "        return data.decode('utf-16le', 'backslashreplace').partition(u'\\x00')[0]"))
R('utf16 array join', (UT, "    result = b\"\"\n    for item in data:\n        result += encode_utf16le(item)\n    return result", "    return b\"\".join([encode_utf16le(item) for item in data])"))

# -- C25 -------------------------------------------------------------------------------------
DI, CP, MI = 'dictionary.py', 'components.py', 'misc.py'
M('C25', DI, "        elif isinstance(defobject, CodecDef):\n            self['CodecDefinitions'].append(defobject)", "        elif isinstance(defobject, CodecDef):\n            self['ContainerDefinitions'].append(defobject)")
M('C25', DI, "        elif isinstance(defobject, TaggedValueDef):\n            self['TaggedValueDefinitions'].append(defobject)", "        elif isinstance(defobject, TaggedValueDef):\n            self['TaggedValueDefinitions'].append(defobject)\n            self['ParameterDefinitions'].append(defobject)")
M('C25', DI, "        if isinstance(defobject, DataDef):\n", "        if isinstance(defobject, DefinitionObject):\n")
M('C25', DI, "            raise ValueError(\"unknown definitions type: %s\" % str(type(defobject)))", "            pass")
M('C25', DI, "        return lookup_def(self, name, CodecDef, 'CodecDefinitions')", "        return lookup_def(self, name, CodecDef, 'ContainerDefinitions')")
M('C25', DI, "        return lookup_def(self, name, InterpolationDef, 'InterpolationDefinitions')", "        return lookup_def(self, name, ParameterDef, 'InterpolationDefinitions')")
M('C25', DI, "        if name == value_name.lower():\n            return value", "        if value_name.lower().startswith(name):\n            return value")
M('C25', DI, "        if name == value_name.lower():\n            return value", "        if name == value_name:\n            return value")
M('C25', DI, "        value_name = value.short_name or ''", "        value_name = value.short_name")
M('C25', DI, "    name = short_name(name).lower()\n", "    name = name.lower()\n")
M('C25', DI, "    for s in ('DataDef_', 'ContainerDef_'):", "    for s in ('DataDef_', 'ContainerDef_', ' '):")
M('C25', DI, "    raise Exception(\"No Definition: %s\" % str(name))", "    return None")
M('C25', DI, "                         'ParameterDefinitions',\n                         'OperationDefinitions',", "                         'OperationDefinitions',\n                         'ParameterDefinitions',")
M('C25', DI, "                         'InterpolationDefinitions',\n                         'TaggedValueDefinitions'):", "                         'TaggedValueDefinitions'):")
M('C25', DI, "                    self[def_type].append(other_def.copy(root=self.root))", "                    self[def_type].append(other_def.copy(root=other.root))")
M('C25', DI, "                if other_def.auid not in self[def_type]:", "                if other_def.auid in self[def_type]:")
M('C25', DI, "                        if param.unique_key not in opdef.parameters:\n                            opdef.parameters.append(param)", "                        opdef.parameters.append(param)")
M('C25', DI, "                    for p in other_def.parameters:\n                        param = self.lookup_parameterdef(p.auid)", "                    for p in other_def.parameters:\n                        param = p")
M('C25', DI, "            self['ContainerDefinitions'].append(d)\n\n    def setup", "            self['DataDefinitions'].append(d)\n\n    def setup")
M('C25', DI, "            self['DataDefinitions'].append(dictionary.lookup_datadef(d))", "            self['DataDefinitions'].append(dictionary.lookup_containerdef(d))")
M('C25', DI, "        self.datadef = self.root.dictionary.lookup_datadef(value)", "        self.datadef = self.root.dictionary.lookup_containerdef(value)")
M('C25', CP, "        self.datadef = self.root.dictionary.lookup_datadef(value)", "        self['DataDefinition'].value = self.root.dictionary.lookup_parameterdef(value)")
M('C25', CP, "        self.operation = self.root.dictionary.lookup_operationdef(operationdef)", "        self.operation = self.root.dictionary.lookup_parameterdef(operationdef)")
M('C25', CP, "        if media_kind is None and self.operation.media_kind is not None:", "        if self.media_kind is None:")
M('C25', MI, "            self.interpolationdef = self.root.dictionary.lookup_interperlationdef(interperlationdef)", "            self.interpolationdef = self.root.dictionary.lookup_parameterdef(interperlationdef)")
M('C25', MI, "        self['Interpolation'].value = value\n\n    # TODO", "        self['Definition'].value = value\n\n    # TODO")
M('C25', 'metadict.py', "        if isinstance(t, ClassDef):\n            return t", "        if isinstance(t, ClassDef):\n            return None")

R('lookup_def by comprehension', (DI, "    for key, value in dictionary[key].items():\n        value_name = value.short_name or ''\n        if name == value_name.lower():\n            return value\n", "    for value in dictionary[key].values():\n        if (value.short_name or '').lower() == name:\n            return value\n"))
R('lookup_def order', (DI, "    if isinstance(name, AUID):\n        return dictionary[key].get(name, None)\n\n    if isinstance(name, uuid.UUID):\n        return dictionary[key].get(AUID(name), None)\n\n    if isinstance(name, instance_type):\n        return name\n", "    if isinstance(name, instance_type):\n        return name\n\n    if isinstance(name, uuid.UUID):\n        name = AUID(name)\n    if isinstance(name, AUID):\n        return dictionary[key].get(name)\n"))
R('register table', (DI, "        if isinstance(defobject, DataDef):\n            self['DataDefinitions'].append(defobject)\n        elif isinstance(defobject, ContainerDef):\n            self['ContainerDefinitions'].append(defobject)\n        elif isinstance(defobject, CodecDef):\n            self['CodecDefinitions'].append(defobject)\n        elif isinstance(defobject, ParameterDef):\n            self['ParameterDefinitions'].append(defobject)\n        elif isinstance(defobject, OperationDef):\n            self['OperationDefinitions'].append(defobject)\n        elif isinstance(defobject, InterpolationDef):\n            self['InterpolationDefinitions'].append(defobject)\n        elif isinstance(defobject, TaggedValueDef):\n            self['TaggedValueDefinitions'].append(defobject)\n        else:\n            raise",
  "        for kind, key in ((DataDef, 'DataDefinitions'), (ContainerDef, 'ContainerDefinitions'), (CodecDef, 'CodecDefinitions'), (ParameterDef, 'ParameterDefinitions'),\n                          (OperationDef, 'OperationDefinitions'), (InterpolationDef, 'InterpolationDefinitions'), (TaggedValueDef, 'TaggedValueDefinitions')):\n            if isinstance(defobject, kind):\n                self[key].append(defobject)\n                break\n        else:\n            raise"))
R('register by name', (DI, "            self['DataDefinitions'].append(defobject)\n        elif", "            key = 'DataDefinitions'\n            self[key].append(defobject)\n        elif"))
R('update split', (DI, "            for other_def in other[def_type].values():\n                if other_def.auid not in self[def_type]:\n                    self[def_type].append(other_def.copy(root=self.root))\n", "            mine = self[def_type]\n            for other_def in list(other[def_type].values()):\n                if mine.get(other_def.auid, None) is None:\n                    mine.append(other_def.copy(root=self.root))\n"))
R('update two passes', (DI, "                    # make sure operation all the same parameters\n                    opdef = self.lookup_operationdef(other_def.auid)\n                    for p in other_def.parameters:\n                        param = self.lookup_parameterdef(p.auid)\n                        if param.unique_key not in opdef.parameters:\n                            opdef.parameters.append(param)", "                    opdef = self['OperationDefinitions'].get(other_def.auid)\n                    params = [self['ParameterDefinitions'].get(p.auid) for p in other_def.parameters]\n                    have = set(x.auid for x in opdef.parameters)\n                    for param in params:\n                        if param.auid not in have:\n                            opdef.parameters.append(param)"))
R('dictionary init helper', (DI, "        for key, args in datadefs.DataDefs.items():\n            d = self.root.create.DataDef(key, *args)\n            self['DataDefinitions'].append(d)\n\n        for key, args in datadefs.ContainerDefs.items():\n            d = self.root.create.ContainerDef(key, *args)\n            self['ContainerDefinitions'].append(d)\n", "        create = self.root.create\n        for key, args in datadefs.DataDefs.items():\n            self.register_def(create.DataDef(key, *args))\n        self['ContainerDefinitions'].extend([create.ContainerDef(key, *args) for key, args in datadefs.ContainerDefs.items()])\n"))
R('short_name unrolled', (DI, "    for s in ('DataDef_', 'ContainerDef_'):\n        name = name.replace(s, \"\")\n    return name", "    return name.replace('DataDef_', '').replace('ContainerDef_', '')"))
R('opgroup media kind first', (CP, "        super(OperationGroup, self).__init__(media_kind=media_kind, length=length)\n        self.operation = self.root.dictionary.lookup_operationdef(operationdef)\n\n        if media_kind is None and self.operation.media_kind is not None:\n            self.media_kind = self.operation.media_kind\n", "        operation = self.root.dictionary.lookup_operationdef(operationdef)\n        super(OperationGroup, self).__init__(media_kind=media_kind or operation.media_kind, length=length)\n        self.operation = operation\n"))
R('parameterdef local', (MI, "            self.parameterdef = self.root.dictionary.lookup_parameterdef(parameterdef)\n\n        if value is not None:", "            dictionary = self.root.dictionary\n            self['Definition'].value = dictionary.lookup_parameterdef(parameterdef).auid\n\n        if value is not None:"))

# -- C27 -------------------------------------------------------------------------------------
MO, ES, MX = 'mobs.py', 'essence.py', 'mxf.py'
M('C27', MO, "            if slots and slots[0] == 0:\n                start = 0\n", "            if slots and slots[-1] == 0:\n                start = 0\n")
M('C27', MO, "        slots.sort()\n", "")
M('C27', MO, "            for i, e in enumerate(slots + [None], start):\n                if i != e:\n                    slot_id = i\n                    break", "            slot_id = len(slots) + start")
M('C27', MO, "            for i, e in enumerate(slots + [None], start):", "            for i, e in enumerate(slots + [None], 1):")
M('C27', MO, "        elif slot_id in slots:\n", "        elif slot_id in slots[:1]:\n")
M('C27', MO, "        if slot_id is None:\n            start = 1", "        if not slot_id:\n            start = 1")
M('C27', MO, "        self.slots.append(slot)\n        return slot\n\n    def create_empty_seq", "        self['Slots'].value = [slot]\n        return slot\n\n    def create_empty_seq")
M('C27', MO, "        slot = self.create_timeline_slot(edit_rate, slot_id)\n        sequence =", "        slot = self.create_timeline_slot(edit_rate)\n        sequence =")
M('C27', MO, "        return self.create_empty_sequence_slot(edit_rate, media_kind=\"sound\")", "        return self.create_empty_sequence_slot(edit_rate, media_kind=\"picture\")")
M('C27', MO, "        clip.mob = self\n        clip.slot = source_slot", "        clip.slot = source_slot")
M('C27', MO, "        clip.slot = source_slot\n", "        clip.slot_id = 1\n")
M('C27', MO, "        clip.length = length or max(source_slot.length - clip.start, 0)", "        clip.length = length or max(source_slot.length, 0)")
M('C27', MO, "        clip.length = length or max(source_slot.length - clip.start, 0)", "        clip.length = length or source_slot.length - clip.start")
M('C27', MO, "        if not media_kind:\n            media_kind = source_slot.media_kind\n", "        media_kind = source_slot.media_kind\n")
M('C27', MO, "            if slot.slot_id == slot_id:\n                return slot\n", "            if slot.slot_id >= slot_id:\n                return slot\n")
M('C27', MO, "        essencedata.mob_id = self.mob_id\n", "        essencedata.mob_id = MobID.new()\n")
M('C27', MO, "        self.root.content.essencedata.append(essencedata)\n", "")
M('C27', MO, "        if offline:\n            return None, slot\n        essencedata = self.root.create.EssenceData()\n        essencedata.mob_id = self.mob_id\n        self.root.content.essencedata.append(essencedata)\n", "        essencedata = self.root.create.EssenceData()\n        essencedata.mob_id = self.mob_id\n        self.root.content.essencedata.append(essencedata)\n        if offline:\n            return None, slot\n")
M('C27', MO, "        slot = self.create_empty_slot(edit_rate=edit_rate, media_kind=media_kind, slot_id=1)\n        if offline:\n            return None, slot\n        essencedata = self.root.create.EssenceData()\n        essencedata.mob_id = self.mob_id\n        self.root.content.essencedata.append(essencedata)\n", "        essencedata = None\n        if not offline:\n            essencedata = self.root.create.EssenceData()\n            essencedata.mob_id = self.mob_id\n            self.root.content.essencedata.append(essencedata)\n        slot = self.create_empty_slot(edit_rate=edit_rate, media_kind=media_kind, slot_id=1)\n")
M('C27', MO, "        self.root.content.mobs.append(source_mob)\n\n        # import the essencedata", "        # import the essencedata")
M('C27', MO, "        source_slot = source_mob.import_dnxhd_essence(path, edit_rate, tape, length, offline)", "        source_slot = source_mob.import_dnxhd_essence(path, edit_rate, tape, offline, length)")
M('C27', MO, "        slot.segment = source_mob.create_source_clip(source_slot.slot_id, media_kind='picture')", "        slot.segment = source_mob.create_source_clip(source_slot.slot_id, media_kind='sound')")
M('C27', MO, "        slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))", "        slot.segment.length = length or int(rescale(frames, edit_rate, sample_rate))")
M('C27', MO, "        descriptor['BlockAlign'].value = block_align\n", "        descriptor['BlockAlign'].value = sample_width\n")
M('C27', MO, "        descriptor['AverageBPS'].value = sample_rate * channels * sample_width", "        descriptor['AverageBPS'].value = sample_rate * channels * sample_width * 8")
M('C27', MO, "        slot.segment.length = length or i\n        descriptor.length = i", "        slot.segment.length = length or i\n        descriptor.length = length or i")
M('C27', MO, "                if stream is not None:\n                    stream.write(packet)", "                    if stream is not None:\n                        stream.write(packet)")
M('C27', MO, "                    descriptor['StoredWidth'].value = width\n                    descriptor['StoredHeight'].value = height\n", "                    descriptor['StoredWidth'].value = height\n                    descriptor['StoredHeight'].value = width\n")
M('C27', MO, "                if alignment_padding:\n                    stream.write(alignment_padding)", "                if alignment_padding and length:\n                    stream.write(alignment_padding)")
M('C27', MO, "        raw_frame_size = (raw_frame_size_bits + 7) // 8", "        raw_frame_size = raw_frame_size_bits // 8")
M('C27', MO, "        frame_size = (raw_frame_size + (alignment-1)) // alignment * alignment", "        frame_size = (raw_frame_size // alignment + 1) * alignment")
M('C27', MO, "        if tape:\n            slot.segment = tape\n\n        # create essence descriptor\n        descriptor = self.root.create.PCMDescriptor()", "        # create essence descriptor\n        descriptor = self.root.create.PCMDescriptor()")
M('C27', MO, "        return self.root.content.essencedata.get(self.mob_id, None)", "        return self.root.content.mobs.get(self.mob_id, None)")
M('C27', MO, "        slot.segment.length = int(float(AAFRational(edit_rate)) * 60 * 60 * 12)  # 12 hours", "        slot.segment.length = int(float(AAFRational(timecode_fps)) * 60 * 60 * 12)  # 12 hours")
M('C27', MO, "self.root.create.Timecode(timecode_fps, drop=drop_frame, length=length)", "self.root.create.Timecode(timecode_fps, drop=drop_frame)")
M('C27', ES, "            return self.root.content.mobs.get(mob_id, None)\n", "            return self.root.content.essencedata.get(mob_id, None)\n")
M('C27', CP, "        if mod_id is None or mod_id.int == 0:\n            return None\n        return self.root.content.mobs.get(mod_id, None)", "        if mod_id is None or mod_id.int == 0:\n            return None\n        return self.root.content.mobs[mod_id]")
M('C27', CP, "        self.mob_id = mob_id or MobID()\n", "        self.mob_id = MobID()\n")
M('C27', CP, "        self.slot_id = value.slot_id", "        self.mob_id = value.slot_id")
M('C27', CP, "        length = length or fps * 60 * 60 * 12  # 12 hours", "        length = fps * 60 * 60 * 12  # 12 hours")
M('C27', 'mobslots.py', "                if isinstance(c, components.Transition):\n                    length -= c.length", "                if isinstance(c, components.Transition):\n                    length += c.length")
M('C27', 'mobslots.py', "        self.edit_rate = edit_rate or 25", "        self.edit_rate = 25")
M('C27', MX, "            if package.mob_id in f.content.mobs:\n                continue\n", "")
M('C27', MX, "            if package.mob_id in f.content.mobs:\n                continue\n", "            if package.mob_id in f.content.mobs:\n                break\n")
M('C27', MX, "        mob.mob_id = self.mob_id\n", "")
M('C27', MX, "        self.root.aaf.content.mobs.append(mob)\n", "")
M('C27', MX, "        for key in ('SourceID', 'SourceMobSlotID', 'StartTime', 'Length'):", "        for key in ('SourceID', 'StartTime', 'Length'):")
M('C27', MX, "        for key in ('SlotID', 'SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'):", "        for key in ('SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'):")
M('C27', MX, "        timeline.segment = segment.link()\n        return timeline", "        segment.link()\n        return timeline")
M('C27', MX, "            s['Components'].append(item.link())", "            s['Components'].insert(0, item.link())")
M('C27', MX, "        return self.root.aaf.create.MasterMob()", "        return self.root.aaf.create.SourceMob()")
M('C27', MX, "        p['InputSegment'].value = self.resolve_ref('InputSegment').link()\n", "")
M('C27', MX, "            return self.objects.get(ref)", "            return list(self.objects.values())[0]")
M('C27', MX, "            d['FileDescriptors'].append(item.link())", "            d['FileDescriptors'].value = [item.link()]")
M('C27', MX, "            mob.descriptor = d.link()", "            d.link()")
R('slot ids by set', (MO, "        slots = [slot.slot_id for slot in self.slots]\n        slots.sort()\n        if slot_id is None:\n            start = 1\n            if slots and slots[0] == 0:\n                start = 0\n\n            for i, e in enumerate(slots + [None], start):\n                if i != e:\n                    slot_id = i\n                    break\n        elif slot_id in slots:",
  "        used = set(slot.slot_id for slot in self.slots)\n        if slot_id is None:\n            slot_id = 0 if 0 in used else 1\n            while slot_id in used:\n                slot_id += 1\n        elif slot_id in used:"))
R('slot ids by max', (MO, "            start = 1\n            if slots and slots[0] == 0:\n                start = 0\n\n            for i, e in enumerate(slots + [None], start):\n                if i != e:\n                    slot_id = i\n                    break", "            slot_id = max(slots) + 1 if slots else 1"))
R('free slot helper', (MO, "        slots = [slot.slot_id for slot in self.slots]\n        slots.sort()\n        if slot_id is None:\n            start = 1\n            if slots and slots[0] == 0:\n                start = 0\n\n            for i, e in enumerate(slots + [None], start):\n                if i != e:\n                    slot_id = i\n                    break", "        slots = sorted(slot.slot_id for slot in self.slots)\n        if slot_id is None:\n            slot_id = self._free_slot_id(slots)"),
  (MO, "    def create_empty_sequence_slot(", "    @staticmethod\n    def _free_slot_id(slots):\n        expected = 0 if slots and slots[0] == 0 else 1\n        for used in slots:\n            if used != expected:\n                return expected\n            expected += 1\n        return expected\n\n    def create_empty_sequence_slot("))
R('slot_at next', (MO, "        for slot in self.slots:\n            if slot.slot_id == slot_id:\n                return slot\n        raise IndexError", "        found = [slot for slot in self.slots if slot.slot_id == slot_id]\n        if found:\n            return found[0]\n        raise IndexError"))
R('source clip arguments', (MO, "        clip = self.root.create.SourceClip(media_kind=media_kind)\n        clip.mob = self\n        clip.slot = source_slot\n        clip.start = start or 0\n        clip.length = length or max(source_slot.length - clip.start, 0)\n        return clip", "        begin = start or 0\n        if not length:\n            length = max(source_slot.length - begin, 0)\n        return self.root.create.SourceClip(begin, length, self.mob_id, source_slot.slot_id, media_kind)"))
R('essence mob setter', (MO, "        essencedata.mob_id = self.mob_id\n", "        essencedata.mob = self\n"))
R('create essence inverted', (MO, "        if offline:\n            return None, slot\n        essencedata = self.root.create.EssenceData()\n        essencedata.mob_id = self.mob_id\n        self.root.content.essencedata.append(essencedata)\n        return essencedata, slot", "        essencedata = None\n        if not offline:\n            essencedata = self.root.create.EssenceData()\n            self.root.content.essencedata.append(essencedata)\n            essencedata.mob_id = self.mob_id\n        return (essencedata, slot)"))
R('dnxhd packets listed', (MO, "            for i, packet in enumerate(video.iter_dnx_stream(f), 1):\n                if cid is None:", "            for packet in video.iter_dnx_stream(f):\n                i += 1\n                if cid is None:"))
R('dnxhd stream with', (MO, "                    descriptor['StoredWidth'].value = width\n                    descriptor['StoredHeight'].value = height\n                    descriptor['ComponentWidth'].value = bitdepth\n", "                    for key, value in (('StoredWidth', width), ('StoredHeight', height), ('ComponentWidth', bitdepth)):\n                        descriptor[key].value = value\n"))
R('wave iter', (MO, "            while True:\n                data = a.readframes(sample_rate)\n                if not data:\n                    break\n                stream.write(data)\n\n        return slot\n\n    def export", "            data = a.readframes(sample_rate)\n            while data:\n                stream.write(data)\n                data = a.readframes(sample_rate)\n\n        return slot\n\n    def export"))
R('master import helper', (MO, "        slot = self.create_timeline_slot(edit_rate=edit_rate)\n        slot.segment = source_mob.create_source_clip(source_slot.slot_id, media_kind='picture')\n\n        # set clip length\n        slot.segment.length = source_slot.segment.length\n        return slot\n\n    def import_audio", "        return self._reference(source_mob, source_slot, edit_rate, 'picture')\n\n    def _reference(self, source_mob, source_slot, edit_rate, media_kind):\n        clip = source_mob.create_source_clip(source_slot.slot_id, media_kind=media_kind)\n        clip.length = source_slot.segment.length\n        slot = self.create_timeline_slot(edit_rate=edit_rate)\n        slot.segment = clip\n        return slot\n\n    def import_audio"))
R('raw video one write', (MO, "                stream.write(data)\n                if alignment_padding:\n                    stream.write(alignment_padding)\n                length += 1", "                stream.write(bytes(data) + bytes(alignment_padding))\n                length += 1"))
R('mxf link comprehension', (MX, "        mobs = []\n        for package in self.packages():\n            if package.mob_id in f.content.mobs:\n                continue\n\n            mobs.append(package.link())\n\n        return mobs", "        known = f.content.mobs\n        return [package.link() for package in self.packages() if package.mob_id not in known]"))
R('mxf package order', (MX, "        mob.mob_id = self.mob_id\n        self.root.aaf.content.mobs.append(mob)\n\n        name = self.data.get('Name', None)\n        if name:\n            mob.name = name\n", "        mob.mob_id = self.mob_id\n        if self.data.get('Name'):\n            mob.name = self.data['Name']\n\n        self.root.aaf.content.mobs.append(mob)\n"))
R('mxf sequence list', (MX, "        for item in self.iter_strong_refs('Components'):\n            s['Components'].append(item.link())", "        s.components.extend([item.link() for item in self.iter_strong_refs('Components')])"))
R('mxf clip unrolled', (MX, "        for key in ('SourceID', 'SourceMobSlotID', 'StartTime', 'Length'):\n            s[key].value = self.data.get(key, None)", "        s.mob_id = self.data.get('SourceID')\n        s.slot_id = self.data.get('SourceMobSlotID')\n        s.start = self.data.get('StartTime')\n        s.length = self.data.get('Length')"))
R('mxf locator helper', (MX, "        d = self.create_aaf_instance()\n        n = self.root.aaf.create.NetworkLocator()\n        n['URLString'].value = ama_path(self.root.path)\n        d['Locator'].append(n)\n\n        return d", "        d = self.create_aaf_instance()\n        d['Locator'].append(self.locator())\n        return d\n\n    def locator(self):\n        n = self.root.aaf.create.NetworkLocator()\n        n['URLString'].value = ama_path(self.root.path)\n        return n"))
R('slot length sum', ('mobslots.py', "            length = 0\n            for c in segment.components:\n                if isinstance(c, components.Transition):\n                    length -= c.length\n                else:\n                    length += c.length\n            return length", "            return sum(-c.length if isinstance(c, components.Transition) else c.length for c in segment.components)"))
