package gorm_tools

// what the database was told: statements run, the rows of the last one and its column list, records written and their order,
// ids updated and with what, and how many batches failed
ghostglobal execs : int
ghostglobal lasterr : error
ghostglobal nrows : int
ghostglobal rows : fn[int]any
ghostglobal ncols : int
ghostglobal cols : fn[int]string
ghostglobal nwritten : int
ghostglobal written : fn[int]any
ghostglobal updates : fn[int]int
ghostglobal updval : fn[int]map[string]any
ghostglobal failures : int

// a record's fields are a function of the record
spec func nfields(any) int
spec func hasfield(any, string) bool
spec func fieldval(any, string) any

trusted func gorm_tools.dumpStructToMapForInsert(x, table) (m, err)
  allocates map[string]any
  ensures nfields(x) >= 0 && (err == nil ==> len(m) == nfields(x) && (m == nil || fresh(m)) && (forall k: string :: {domof(m)[k]} {hasfield(x, k)} domof(m)[k] <==> hasfield(x, k)) && (forall k: string :: {mapof(m)[k]} {fieldval(x, k)} hasfield(x, k) ==> mapof(m)[k] == fieldval(x, k)))

trusted func strings.Join(a, sep) (r)
  modifies ghost ncols, ghost cols
  ensures ncols == len(a) && (forall i :: {cols[i]} 0 <= i && i < len(a) ==> cols[i] == a[i])

trusted func gorm.io/gorm.DB.Exec(db, sql, values) (r)
  modifies ghost execs, ghost lasterr, ghost nrows, ghost rows
  allocates gorm.io/gorm.DB
  ensures r != nil && lasterr == r.Error && execs == old(execs) + 1 && nrows == len(values) && (forall i :: {rows[i]} 0 <= i && i < len(values) ==> rows[i] == values[i])

trusted func strings.TrimSuffix(s, x) (r)

func SplitInsertTableRecords(db, table, records) (err)
  property C21
  requires db != nil
  modifies ghost execs, ghost lasterr, ghost nrows, ghost rows, ghost ncols, ghost cols, ghost nwritten, ghost written, ghost failures
  allocates map[string]any, []map[string]any, []string, []any, gorm.io/gorm.DB
  ensures[an empty request touches nothing] len(records) == 0 ==> err == nil && execs == old(execs)
  ensures[every record once, in order] err == nil ==> nwritten == old(nwritten) + len(records)
  ensures[a failure leaves whole batches in order] old(nwritten) <= nwritten && nwritten <= old(nwritten) + len(records) && (forall i :: {written[i]} old(nwritten) <= i && i < nwritten ==> written[i] == records[i - old(nwritten)])
  ensures[the first failure ends it] failures <= old(failures) + 1 && (failures > old(failures) ==> err != nil)
  loop 0
    let done := nwritten - old(nwritten)
    invariant failures == old(failures) && (len(old(records)) == 0 ==> execs == old(execs))
    invariant 0 <= done && done + len(records) == len(old(records)) && (forall i :: {records[i]} 0 <= i && i < len(records) ==> records[i] == old(records)[done + i])
    invariant forall i :: {written[i]} old(nwritten) <= i && i < nwritten ==> written[i] == old(records)[i - old(nwritten)]
    decreases len(records)

def col(k) := concat(concat("`", k), "`")
def row(i) := cast("[]any", rows[i])
def dump(m, x) := len(m) == nfields(x) && (forall k: string :: {domof(m)[k]} {hasfield(x, k)} domof(m)[k] <==> hasfield(x, k)) && (forall k: string :: {mapof(m)[k]} {fieldval(x, k)} hasfield(x, k) ==> mapof(m)[k] == fieldval(x, k))
def at(values, i) := cast("[]any", values[i])
def rowok(v, x, names) := fresh(cast("[]any", v)) && nfields(x) == len(names) && len(cast("[]any", v)) == len(names)
// finite sets of equal size, one within the other
axiom fields_finite : forall x: any, y: any :: {nfields(x), nfields(y)} nfields(x) == nfields(y) && (forall k: string :: {hasfield(x, k)} hasfield(x, k) ==> hasfield(y, k)) ==> (forall k: string :: {hasfield(y, k)} hasfield(y, k) ==> hasfield(x, k))
func BatchInsertTableRecords(db, table, records) (err)
  property C21
  requires db != nil
  requires[within the placeholder limit] len(records) >= 1 ==> len(records) * nfields(records[0]) <= 65000
  modifies ghost execs, ghost lasterr, ghost nrows, ghost rows, ghost ncols, ghost cols, ghost nwritten, ghost written, ghost failures
  allocates map[string]any, []map[string]any, []string, []any, gorm.io/gorm.DB
  ghostset nwritten := if err == nil then old(nwritten) + len(records) else old(nwritten)
  ghostset written := if err == nil then lam i :: (if old(nwritten) <= i && i < old(nwritten) + len(records) then records[i - old(nwritten)] else old(written)[i]) else old(written)
  ghostset failures := old(failures) + (if err == nil then 0 else 1)
  ensures nwritten == (if err == nil then old(nwritten) + len(records) else old(nwritten)) && failures == old(failures) + (if err == nil then 0 else 1)
  ensures forall i :: {written[i]} written[i] == (if err == nil && old(nwritten) <= i && i < old(nwritten) + len(records) then records[i - old(nwritten)] else old(written)[i])
  ensures[an empty request touches nothing] len(records) == 0 ==> err == nil && execs == old(execs)
  ensures[one statement] len(records) > 0 && err == nil ==> execs == old(execs) + 1 && lasterr == nil && nrows == len(records)
  ensures[each column named once for all records] len(records) > 0 && err == nil ==> (forall i, k: string :: {hasfield(records[i], k)} 0 <= i && i < len(records) && hasfield(records[i], k) ==> (exists j :: {cols[j]} 0 <= j && j < ncols && cols[j] == col(k)))
  ensures[each record is a row of its values] len(records) > 0 && err == nil ==> (forall i :: {rows[i]} 0 <= i && i < len(records) ==> nfields(records[i]) == ncols && len(row(i)) == ncols)
  ensures[each value in its column] len(records) > 0 && err == nil ==> (forall i, j :: {row(i)[j]} 0 <= i && i < len(records) && 0 <= j && j < ncols ==> (exists k: string :: {col(k)} cols[j] == col(k) && hasfield(records[i], k) && row(i)[j] == fieldval(records[i], k)))
  loop 0
    invariant fresh(recordMap) && len(recordMap) == len(records)
    invariant forall i :: {recordMap[i]} 0 <= i && i < idx ==> allocated(recordMap[i]) && dump(recordMap[i], records[i])
  loop 1
    invariant fresh(fieldName) && nvisited == len(fieldName)
    invariant forall j :: {fieldName[j]} 0 <= j && j < len(fieldName) ==> visited[fieldName[j]]
    invariant forall k: string :: {visited[k]} visited[k] ==> (exists j :: {fieldName[j]} 0 <= j && j < len(fieldName) && fieldName[j] == k)
  loop 2
    invariant fresh(values) && len(values) == idx
    invariant forall i :: {values[i]} 0 <= i && i < idx ==> rowok(values[i], records[i], fieldName) && base(at(values, i)) != base(values)
    invariant forall i, j :: {values[i], fieldName[j]} 0 <= i && i < len(values) && 0 <= j && j < len(fieldName) ==> hasfield(records[i], fieldName[j])
    invariant forall i, j :: {at(values, i)[j]} 0 <= i && i < len(values) && 0 <= j && j < len(fieldName) ==> at(values, i)[j] == fieldval(records[i], fieldName[j])
  loop 3
    let x := records[len(values)]
    invariant forall i, j :: {values[i], fieldName[j]} 0 <= i && i < len(values) && 0 <= j && j < len(fieldName) ==> hasfield(records[i], fieldName[j])
    invariant forall i, j :: {at(values, i)[j]} 0 <= i && i < len(values) && 0 <= j && j < len(fieldName) ==> at(values, i)[j] == fieldval(records[i], fieldName[j])
    invariant fresh(values) && forall i :: {values[i]} 0 <= i && i < len(values) ==> rowok(values[i], records[i], fieldName) && base(at(values, i)) != base(values) && base(at(values, i)) != base(valueItem)
    invariant fresh(valueItem) && len(valueItem) == idx && base(valueItem) != base(values)
    invariant forall j :: {valueItem[j]} {fieldName[j]} 0 <= j && j < idx ==> hasfield(x, fieldName[j]) && valueItem[j] == fieldval(x, fieldName[j])
  loop 4
    invariant forall i, k: string :: {values[i], hasfield(records[0], k)} 0 <= i && i < len(values) && hasfield(records[0], k) ==> hasfield(records[i], k)
    invariant forall i, k: string :: {hasfield(records[i], k)} 0 <= i && i < len(values) && hasfield(records[i], k) ==> hasfield(records[0], k)
    invariant forall i :: {values[i]} 0 <= i && i < len(values) ==> nfields(records[i]) == len(fieldName) && len(cast("[]any", values[i])) == len(fieldName)
    invariant forall i, j :: {cast("[]any", values[i])[j]} 0 <= i && i < len(values) && idx <= j && j < len(fieldName) ==> hasfield(records[i], fieldName[j]) && cast("[]any", values[i])[j] == fieldval(records[i], fieldName[j])
    invariant forall i, j :: {cast("[]any", values[i])[j]} 0 <= i && i < len(values) && 0 <= j && j < idx ==> (exists k: string :: {col(k)} fieldName[j] == col(k) && hasfield(records[i], k) && cast("[]any", values[i])[j] == fieldval(records[i], k))
    invariant forall k: string :: {hasfield(records[0], k)} hasfield(records[0], k) ==> (exists j :: {fieldName[j]} 0 <= j && j < len(fieldName) && fieldName[j] == (if j < idx then col(k) else k))

def upd(m, id, k) := mapof(mapof(m)[id])[k]
// even places hold ids of the request, the places after them a value requested for that id
def idsat(f, n, m) := forall q :: {f[q]} 0 <= q && q < n && q % 2 == 0 ==> domof(m)[cast("int64", f[q])]
def valsat(f, n, m) := forall q, r :: {f[q], f[r]} 0 <= q && r < n && r == q + 1 && q % 2 == 0 ==> (exists k: string :: {upd(m, cast("int64", f[q]), k)} f[r] == upd(m, cast("int64", f[q]), k))
def idsin(f, m) := idsat(f, len(f), m)
def valsin(f, m) := valsat(f, len(f), m)
func BatchUpdateTableFieldWithoutVersionByID(db, tableName, m) (err)
  property C21
  requires db != nil && len(m) <= 1152921504606846976
  modifies ghost execs, ghost lasterr, ghost nrows, ghost rows, ghost updates, ghost updval, ghost failures
  allocates []string, []any, []int64, gorm.io/gorm.DB
  ghostset updates := if err == nil then lam id :: old(updates)[id] + (if domof(m)[id] then 1 else 0) else old(updates)
  ghostset updval := if err == nil then lam id :: (if domof(m)[id] then mapof(m)[id] else old(updval)[id]) else old(updval)
  ghostset failures := old(failures) + (if err == nil then 0 else 1)
  ensures failures == old(failures) + (if err == nil then 0 else 1)
  ensures forall id :: {updates[id]} updates[id] == old(updates)[id] + (if err == nil && domof(m)[id] then 1 else 0)
  ensures forall id :: {updval[id]} updval[id] == (if err == nil && domof(m)[id] then mapof(m)[id] else old(updval)[id])
  ensures[an empty request touches nothing] len(m) == 0 ==> err == nil && execs == old(execs)
  ensures[one statement] len(m) > 0 && err == nil ==> execs == old(execs) + 1 && lasterr == nil && nrows >= 1
  ensures[all ids are named] len(m) > 0 && err == nil ==> len(cast("[]int64", rows[nrows - 1])) == len(m) && (forall id :: {domof(m)[id]} domof(m)[id] ==> (exists j :: {cast("[]int64", rows[nrows - 1])[j]} 0 <= j && j < len(m) && cast("[]int64", rows[nrows - 1])[j] == id))
  ensures[ids and values alternate] len(m) > 0 && err == nil ==> nrows % 2 == 1
  ensures[each id is one of the request] len(m) > 0 && err == nil ==> idsat(rows, nrows - 1, m)
  ensures[each value with its id] len(m) > 0 && err == nil ==> valsat(rows, nrows - 1, m)
  loop 0
    invariant fresh(updateField)
  loop 1
    invariant fresh(args) && len(args) % 2 == 0 && idsin(args, m) && valsin(args, m)
  loop 2
    invariant fresh(args) && len(args) % 2 == 0 && idsin(args, m) && valsin(args, m)
  loop 3
    invariant fresh(allID) && nvisited == len(allID)
    invariant forall j :: {allID[j]} 0 <= j && j < len(allID) ==> visited[allID[j]]
    invariant forall id :: {visited[id]} visited[id] ==> (exists j :: {allID[j]} 0 <= j && j < len(allID) && allID[j] == id)

def part(f, i) := f[i]
func SplitUpdateTableFieldWithoutVersionByID(db, tableName, m) (err)
  property C21
  requires db != nil
  modifies ghost execs, ghost lasterr, ghost nrows, ghost rows, ghost updates, ghost updval, ghost failures
  allocates map[int64]map[string]any, []map[int64]map[string]any, []string, []any, []int64, gorm.io/gorm.DB
  ensures[an empty request touches nothing] len(m) == 0 ==> err == nil && execs == old(execs)
  ensures[every id once] err == nil ==> (forall id :: {updates[id]} updates[id] == old(updates)[id] + (if domof(m)[id] then 1 else 0))
  ensures[with its own values] err == nil ==> (forall id :: {updval[id]} domof(m)[id] ==> updval[id] == mapof(m)[id])
  ensures[nothing else, and nothing twice] forall id :: {updates[id]} updates[id] == old(updates)[id] || (domof(m)[id] && updates[id] == old(updates)[id] + 1)
  ensures[the first failure ends it] failures <= old(failures) + 1 && (failures > old(failures) ==> err != nil)
  loop 0
    invariant totalNum == nvisited && 0 <= index && index < 500 && (index == 0 || index <= totalNum) && (totalNum == len(m) ==> index == 0)
    invariant fresh(sliceUpdate) && len(sliceUpdate) <= totalNum
    invariant forall i :: {sliceUpdate[i]} 0 <= i && i < len(sliceUpdate) ==> sliceUpdate[i] != nil && fresh(sliceUpdate[i]) && len(sliceUpdate[i]) <= 500
    invariant index > 0 ==> tmpMap != nil && fresh(tmpMap) && len(tmpMap) == index && (forall i :: {sliceUpdate[i]} 0 <= i && i < len(sliceUpdate) ==> sliceUpdate[i] != tmpMap)
    invariant forall i, id :: {domof(sliceUpdate[i])[id]} 0 <= i && i < len(sliceUpdate) && domof(sliceUpdate[i])[id] ==> visited[id] && mapof(sliceUpdate[i])[id] == mapof(m)[id]
    invariant forall i, j, id :: {domof(sliceUpdate[i])[id], domof(sliceUpdate[j])[id]} 0 <= i && i < j && j < len(sliceUpdate) ==> !(domof(sliceUpdate[i])[id] && domof(sliceUpdate[j])[id])
    invariant index > 0 ==> (forall id :: {domof(tmpMap)[id]} domof(tmpMap)[id] ==> visited[id] && mapof(tmpMap)[id] == mapof(m)[id])
    invariant index > 0 ==> (forall i, id :: {domof(sliceUpdate[i])[id], domof(tmpMap)[id]} 0 <= i && i < len(sliceUpdate) ==> !(domof(sliceUpdate[i])[id] && domof(tmpMap)[id]))
    invariant forall id :: {visited[id]} visited[id] ==> (index > 0 && domof(tmpMap)[id]) || (exists i :: {domof(sliceUpdate[i])[id]} 0 <= i && i < len(sliceUpdate) && domof(sliceUpdate[i])[id])
  loop 1
    invariant forall i :: {sliceUpdate[i]} 0 <= i && i < len(sliceUpdate) ==> fresh(sliceUpdate[i])
    invariant failures == old(failures) && (len(m) == 0 ==> execs == old(execs) && len(sliceUpdate) == 0)
    invariant forall i, id :: {domof(sliceUpdate[i])[id]} 0 <= i && i < idx && domof(sliceUpdate[i])[id] ==> updates[id] == old(updates)[id] + 1 && updval[id] == mapof(m)[id]
    invariant forall i, id :: {domof(sliceUpdate[i])[id]} idx <= i && i < len(sliceUpdate) && domof(sliceUpdate[i])[id] ==> updates[id] == old(updates)[id]
    invariant forall id :: {updates[id]} updates[id] == old(updates)[id] || (domof(m)[id] && updates[id] == old(updates)[id] + 1)
