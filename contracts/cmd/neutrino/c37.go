package main

import (
	"encoding/json"
	"errors"
	"io/fs"
	"os"
	"strings"

	"github.com/urfave/cli/v2"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var (
	errAbsent = &fs.PathError{Op: "open", Err: fs.ErrNotExist}
	errDisk   = errors.New("verif: the disk failed")
	errJSON   = errors.New("verif: malformed")
)

type file struct {
	name    string
	content []byte
}

// disk holds files; one of its operations may fail, or be the last before a crash.
var disk struct {
	dir            bool
	files          []file
	op, fail       int
	crash          bool
	values         []map[string]string
	args           []string
	opened, closed int
}

// step is one operation: it reports whether it fails, and stops at a crash.
// Half says that the operation was begun.
func step(half func()) bool {
	disk.op++
	if disk.op != disk.fail {
		return false
	}
	if half != nil && spec.Choose("half done", 2) > 0 {
		half()
	}
	if disk.crash {
		panic("verif: crash")
	}
	return true
}

func find(name string) int {
	for i, f := range disk.files {
		if f.name == name {
			return i
		}
	}
	return -1
}

func put(name string, content []byte) {
	if i := find(name); i >= 0 {
		disk.files[i].content = content
		return
	}
	disk.files = append(disk.files, file{name, content})
}

//verif:semantics os.Stat
func stat(name string) (os.FileInfo, error) {
	if name == neutrinoDataDir && disk.dir || find(name) >= 0 {
		return nil, nil
	}
	return nil, errAbsent
}

//verif:semantics os.IsNotExist
func isNotExist(err error) bool { return err == error(errAbsent) }

//verif:semantics os.Mkdir
func mkdir(string, os.FileMode) error {
	if step(nil) {
		return errDisk
	}
	disk.dir = true
	return nil
}

//verif:semantics os.MkdirAll
func mkdirAll(name string, m os.FileMode) error { return mkdir(name, m) }

//verif:semantics os.OpenFile
func openFile(name string, flag int, _ os.FileMode) (*os.File, error) {
	if !disk.dir || flag&os.O_CREATE == 0 && find(name) < 0 {
		return nil, errAbsent
	}
	if step(nil) {
		return nil, errDisk
	}
	if find(name) < 0 || flag&os.O_TRUNC != 0 {
		put(name, nil)
	}
	disk.opened++
	return &os.File{}, nil
}

//verif:semantics (*os.File).Close
func closeFile(*os.File) error {
	disk.closed++
	return nil
}

//verif:semantics os.ReadFile
func readFile(name string) ([]byte, error) {
	i := find(name)
	if i < 0 {
		return nil, errAbsent
	}
	if step(nil) {
		return nil, errDisk
	}
	return disk.files[i].content, nil
}

//verif:semantics os.WriteFile
func writeFile(name string, b []byte, _ os.FileMode) error {
	if !disk.dir {
		return errAbsent
	}
	if step(func() { put(name, nil) }) {
		return errDisk
	}
	put(name, b)
	return nil
}

//verif:semantics os.Rename
func rename(from, to string) error {
	i := find(from)
	if i < 0 {
		return errAbsent
	}
	if step(nil) {
		return errDisk
	}
	b := disk.files[i].content
	disk.files[i] = disk.files[len(disk.files)-1]
	disk.files = disk.files[:len(disk.files)-1]
	put(to, b)
	return nil
}

//verif:semantics os.Remove
func remove(name string) error {
	i := find(name)
	if i < 0 {
		return errAbsent
	}
	if step(nil) {
		return errDisk
	}
	disk.files[i] = disk.files[len(disk.files)-1]
	disk.files = disk.files[:len(disk.files)-1]
	return nil
}

// marshal gives every value a content of its own.
//
//verif:semantics encoding/json.Marshal
func marshal(v interface{}) ([]byte, error) {
	disk.values = append(disk.values, spec.MapCopy(v.(map[string]string)))
	return []byte{'A' + byte(len(disk.values)-1)}, nil
}

//verif:semantics encoding/json.Unmarshal
func unmarshal(b []byte, into interface{}) error {
	if len(b) != 1 || int(b[0]) < 'A' || int(b[0])-'A' >= len(disk.values) {
		return errJSON
	}
	m := *into.(*map[string]string)
	for k, v := range disk.values[b[0]-'A'] {
		m[k] = v
	}
	return nil
}

type args struct{ cli.Args }

func (args) Get(n int) string {
	if n < len(disk.args) {
		return disk.args[n]
	}
	return ""
}
func (args) Len() int { return len(disk.args) }

// The command line.
//
//verif:model (*github.com/urfave/cli/v2.Context).NArg
func nArg(*cli.Context) int { return len(disk.args) }

//verif:model (*github.com/urfave/cli/v2.Context).Args
func contextArgs(*cli.Context) cli.Args { return args{} }

//verif:model (*github.com/urfave/cli/v2.Context).String
func contextString(_ *cli.Context, name string) string { return disk.args[len(name)-3] }

// text is what a configuration may hold: JSON holds valid UTF-8 only.
func text(name string) string {
	s := spec.Any[string](name)
	if spec.Native() {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

const (
	noFile = iota
	emptyFile
	stored
	malformed
)

// begin prepares the configuration and returns what it holds.
func begin(kind int, keys int) map[string]string {
	disk.dir, disk.files, disk.op, disk.fail, disk.crash, disk.values, disk.opened, disk.closed = true, nil, 0, 0, false, nil, 0, 0
	neutrinoDataDir = "/nowhere/neutrino"
	if spec.Native() {
		d, err := os.MkdirTemp("", "verif-c37-")
		if err != nil {
			panic(err)
		}
		neutrinoDataDir = d
	}
	statePath = neutrinoDataDir + "/state.json"
	m := map[string]string{}
	var content []byte
	switch kind {
	case noFile:
		return m
	case stored:
		for _, n := range []string{"first", "second"}[:keys] {
			m[text(n+" key")] = text(n + " value")
		}
		content, _ = json.Marshal(m)
	case malformed:
		content = []byte("{")
	}
	if spec.Native() {
		if err := os.WriteFile(statePath, content, 0644); err != nil {
			panic(err)
		}
	} else {
		put(statePath, content)
	}
	return m
}

func end() {
	disk.fail, disk.crash = 0, false
	if spec.Native() {
		os.RemoveAll(neutrinoDataDir)
	}
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// VC_C37_fresh: a key is set where nothing is stored, or nothing that can be read.
func VC_C37_fresh() { set([]int{noFile, emptyFile, malformed}[spec.Choose("before", 3)], 0) }

// VC_C37_set: a key is set.
func VC_C37_set() {
	spec.Bounded("at most two stored keys")
	set(stored, spec.Choose("keys", 3))
}

func set(kind, keys int) {
	before := begin(kind, keys)
	if !spec.Native() && kind == noFile {
		disk.dir = spec.Choose("directory", 2) > 0
	}
	key, value := text("key"), text("value")
	disk.args = []string{key, value}
	if !spec.Native() {
		disk.fail = spec.Choose("failing operation", 8)
	}
	err := configSetAction(&cli.Context{})
	failed := disk.fail > 0 && disk.op >= disk.fail
	disk.fail = 0
	if kind == malformed {
		spec.Ensures("a configuration that cannot be read is not replaced", err != nil)
		if i := find(statePath); !spec.Native() {
			spec.Ensures("it stays as it is", i >= 0 && spec.SameBytes(disk.files[i].content, []byte("{")))
		}
		end()
		return
	}
	after, rerr := getState()
	if err != nil {
		spec.Ensures("only a failing disk keeps a key from being set", failed)
		spec.Ensures("what was stored still is", rerr == nil && same(after, before) || rerr != nil && len(before) == 0)
		end()
		return
	}
	before[key] = value
	spec.Ensures("the value is stored", rerr == nil && after[key] == value)
	spec.Ensures("all other keys are as they were", same(after, before))
	end()
}

// VC_C37_crash: the machine stops at any moment while a key is set.
func VC_C37_crash() {
	spec.Bounded("one stored key")
	if spec.Native() {
		return
	}
	before := begin(stored, 1)
	key, value := text("key"), text("value")
	disk.fail, disk.crash = 1+spec.Choose("crash at", 7), true
	stopped := spec.Panics(func() { setState(map[string]string{key: value}) })
	disk.fail, disk.crash = 0, false
	after, err := getState()
	spec.Ensures("the configuration can still be read", err == nil)
	if stopped && same(after, before) {
		return
	}
	before[key] = value
	spec.Ensures("it is the one before or the one after", same(after, before))
}

// VC_C37_configure: the address and the path are set at once.
func VC_C37_configure() {
	spec.Bounded("at most two stored keys")
	before := begin(stored, spec.Choose("keys", 3))
	disk.args = []string{text("url"), text("path")} // by the length of the name
	spec.Ensures("the configuration is stored", configure(&cli.Context{}) == nil)
	after, err := getState()
	before["url"], before["path"] = disk.args[0], disk.args[1]
	spec.Ensures("address and path are stored, other keys stay", err == nil && same(after, before))
	end()
}

// VC_C37_merge: later values win, nothing is lost, nothing is invented.
func VC_C37_merge() {
	spec.Bounded("two maps of at most two keys")
	a, b := map[string]string{}, map[string]string{}
	for i, n := 0, spec.Choose("first", 3); i < n; i++ {
		a[text("a key")] = text("a value")
	}
	for i, n := 0, spec.Choose("second", 3); i < n; i++ {
		b[text("b key")] = text("b value")
	}
	ka, kb := spec.MapCopy(a), spec.MapCopy(b)
	m := merge(a, b)
	k := text("any key")
	v, ok := m[k]
	va, oka := ka[k]
	vb, okb := kb[k]
	spec.Ensures("a key is there when one of them has it", ok == (oka || okb))
	if okb {
		spec.Ensures("the later value wins", v == vb)
	} else if oka {
		spec.Ensures("the earlier value stays", v == va)
	}
	spec.Ensures("the maps stay as they are", same(a, ka) && same(b, kb))
}
