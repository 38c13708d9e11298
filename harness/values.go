package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

// Conversion between the library's structures and the specification's values:
// numbers of up to 16 bits and flags are integers, 32-bit numbers four bytes
// (least significant first), texts byte arrays, keyed by the JSON tag.

type obj = map[string]interface{}

var textFields = map[string]bool{"IMEI": true, "IMSI": true, "LNGC": true, "MSISDN": true,
	"UNM": true, "UPSW": true, "SS": true, "DSCR": true, "NID": true}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func le4(x uint32) []int {
	return []int{int(x & 255), int(x >> 8 & 255), int(x >> 16 & 255), int(x >> 24 & 255)}
}

func fromLE4(v interface{}) uint32 {
	b := toBytes(v)
	var x uint32
	for i := len(b) - 1; i >= 0; i-- {
		x = x<<8 | uint32(b[i])
	}
	return x
}

func toBytes(v interface{}) []byte {
	a, _ := v.([]interface{})
	r := make([]byte, len(a))
	for i, x := range a {
		r[i] = byte(x.(float64))
	}
	return r
}

var epoch2010 = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)

// scaled coordinate <-> raw wire value; a value that is not (very nearly) the
// image of an integer is reported as such and matches nothing in the spec.
func rawCoord(f, full float64) interface{} {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return []int{-1}
	}
	neg := math.Signbit(f) && f != 0
	r := math.Round(math.Abs(f) / full * 0xFFFFFFFF)
	if r > 0xFFFFFFFF {
		return []int{-1}
	}
	if math.Abs(math.Abs(f)-r*full/0xFFFFFFFF) > full*1e-11 {
		return []int{-1}
	}
	if neg {
		return []int{-1}
	}
	return le4(uint32(r))
}

func coord(raw uint32, full float64) float64 { return float64(raw) * full / 0xFFFFFFFF }

func rawTime(t time.Time) interface{} {
	s := t.Unix() - epoch2010.Unix()
	if s < 0 || s > 0xFFFFFFFF || t.Nanosecond() != 0 {
		return []int{-1}
	}
	return le4(uint32(s))
}

func tagOf(f reflect.StructField) string {
	t := f.Tag.Get("json")
	if t == "" {
		return f.Name
	}
	return t
}

func flagVal(s string) int {
	if s == "" {
		return -1
	}
	n, err := strconv.ParseUint(s, 2, 16)
	if err != nil {
		return -2
	}
	return int(n)
}

func fieldOut(tag string, v reflect.Value) interface{} {
	if t, ok := v.Interface().(time.Time); ok {
		return rawTime(t)
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint:
		return int(v.Uint())
	case reflect.Uint32, reflect.Uint64:
		return le4(uint32(v.Uint()))
	case reflect.Int16, reflect.Int8, reflect.Int32, reflect.Int:
		return int(v.Int())
	case reflect.Float64:
		if tag == "LAT" {
			return rawCoord(v.Float(), 90)
		}
		return rawCoord(v.Float(), 180)
	case reflect.String:
		if textFields[tag] {
			return ints([]byte(v.String()))
		}
		return flagVal(v.String())
	case reflect.Slice:
		return ints(v.Bytes())
	}
	return "?" + v.Kind().String()
}

func fieldIn(tag string, v reflect.Value, x interface{}, width int) {
	if _, ok := v.Interface().(time.Time); ok {
		// the same instant in whatever zone the user keeps it
		raw := fromLE4(x)
		t := epoch2010.Add(time.Duration(raw) * time.Second)
		if raw%3 != 0 {
			t = t.In(time.FixedZone("", (int(raw%25)-12)*3600+int(raw%4)*900))
		}
		v.Set(reflect.ValueOf(t))
		return
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint:
		v.SetUint(uint64(x.(float64)))
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(fromLE4(x)))
	case reflect.Int16, reflect.Int8, reflect.Int32, reflect.Int:
		v.SetInt(int64(x.(float64)))
	case reflect.Float64:
		full := 180.0
		if tag == "LAT" {
			full = 90
		}
		v.SetFloat(coord(fromLE4(x), full))
	case reflect.String:
		if textFields[tag] {
			v.SetString(string(toBytes(x)))
		} else {
			v.SetString(fmt.Sprintf("%0*b", width, int(x.(float64))))
		}
	case reflect.Slice:
		v.SetBytes(toBytes(x))
	}
}

var twoBits = map[string]bool{"LLSVU": true, "RPP": true, "PRF": true, "ENA": true}

func structOut(p interface{}, skip map[string]bool) obj {
	v := reflect.ValueOf(p).Elem()
	t := v.Type()
	o := obj{}
	for i := 0; i < t.NumField(); i++ {
		tag := tagOf(t.Field(i))
		if skip[tag] || t.Field(i).PkgPath != "" {
			continue
		}
		o[tag] = fieldOut(tag, v.Field(i))
	}
	return o
}

func structIn(p interface{}, o obj, skip map[string]bool) {
	v := reflect.ValueOf(p).Elem()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		tag := tagOf(t.Field(i))
		x, ok := o[tag]
		if !ok || skip[tag] {
			continue
		}
		w := 1
		if twoBits[tag] || (tag == "PR" && v.Field(i).Kind() == reflect.String) {
			w = 2
		}
		fieldIn(tag, v.Field(i), x, w)
	}
}

func newSub(t int) egts.BinaryData {
	switch t {
	case 0:
		return &egts.SrResponse{}
	case 1:
		return &egts.SrTermIdentity{}
	case 5:
		return &egts.SrDispatcherIdentity{}
	case 7:
		return &egts.SrAuthInfo{}
	case 9:
		return &egts.SrResultCode{}
	case 15:
		return &egts.StorageRecord{}
	case 16:
		return &egts.SrPosData{}
	case 17:
		return &egts.SrExtPosData{}
	case 18:
		return &egts.SrAdSensorsData{}
	case 19:
		return &egts.SrCountersData{}
	case 20, 21:
		return &egts.SrStateData{}
	case 24:
		return &egts.SrAbsAnSensData{}
	case 25:
		return &egts.SrAbsCntrData{}
	case 27:
		return &egts.SrLiquidLevelSensor{}
	}
	return nil
}

func subType(d egts.BinaryData) string { return fmt.Sprintf("%T", d) }

func u32p(p *uint32) interface{} {
	if p == nil {
		return []int{-1}
	}
	return le4(*p)
}

// plusFields lists the fields of an EGTS-plus record that hold nested messages.
func plusFields(x *egts.StorageRecord, f func(num int, v reflect.Value)) {
	v := reflect.ValueOf(x).Elem()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		p := strings.Split(t.Field(i).Tag.Get("protobuf"), ",")
		if len(p) < 3 || p[0] != "bytes" {
			continue
		}
		n, _ := strconv.Atoi(p[1])
		f(n, v.Field(i))
	}
}

func plusNestedOut(x *egts.StorageRecord) []interface{} {
	type ent struct {
		n int
		b []byte
	}
	var es []ent
	add := func(n int, v reflect.Value) {
		m, ok := v.Interface().(proto.Message)
		if !ok {
			return
		}
		b, err := proto.Marshal(m)
		if err != nil {
			b = []byte("?" + err.Error())
		}
		es = append(es, ent{n, b})
	}
	plusFields(x, func(n int, v reflect.Value) {
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				add(n, v.Index(i))
			}
		} else if v.Kind() == reflect.Ptr && !v.IsNil() {
			add(n, v)
		}
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].n < es[j].n })
	r := []interface{}{}
	for _, e := range es {
		r = append(r, obj{"f": e.n, "b": ints(e.b)})
	}
	return r
}

func plusNestedIn(x *egts.StorageRecord, sn interface{}) {
	a, _ := sn.([]interface{})
	for _, ei := range a {
		e := ei.(map[string]interface{})
		plusFields(x, func(n int, v reflect.Value) {
			if n != int(e["f"].(float64)) {
				return
			}
			et := v.Type()
			if v.Kind() == reflect.Slice {
				et = et.Elem()
			}
			m := reflect.New(et.Elem())
			if err := proto.Unmarshal(toBytes(e["b"]), m.Interface().(proto.Message)); err != nil {
				fatal("nested EGTS-plus message:", err)
			}
			if v.Kind() == reflect.Slice {
				v.Set(reflect.Append(v, m))
			} else {
				v.Set(m)
			}
		})
	}
}

// subOut renders the data of a subrecord.
func subOut(d egts.BinaryData) interface{} {
	switch x := d.(type) {
	case nil:
		return []int{-1}
	case *egts.StorageRecord:
		rr := []int{}
		for _, r := range x.RecordReason {
			rr = append(rr, int(r))
		}
		return obj{"RN": u32p(x.RecordNumber), "TS": u32p(x.TimeStamp), "RR": rr, "SF": u32p(x.StatusFlags), "SN": plusNestedOut(x)}
	case *egts.ServiceDataSet, *egts.PtResponse:
		return "nested"
	default:
		return structOut(d, nil)
	}
}

func subIn(t int, o obj) egts.BinaryData {
	d := newSub(t)
	if x, ok := d.(*egts.StorageRecord); ok {
		rn, ts, sf := fromLE4(o["RN"]), fromLE4(o["TS"]), fromLE4(o["SF"])
		x.RecordNumber, x.TimeStamp, x.StatusFlags = &rn, &ts, &sf
		if a, ok := o["RR"].([]interface{}); ok {
			for _, r := range a {
				x.RecordReason = append(x.RecordReason, egts.StorageRecordReason(int32(r.(float64))))
			}
		}
		plusNestedIn(x, o["SN"])
		return x
	}
	structIn(d, o, nil)
	return d
}

func rdOut(rds egts.RecordDataSet) []interface{} {
	r := []interface{}{}
	for _, s := range rds {
		want := newSub(int(s.SubrecordType))
		if want == nil || subType(want) != subType(s.SubrecordData) {
			r = append(r, obj{"SRT": int(s.SubrecordType), "SRL": int(s.SubrecordLength), "SRD": obj{"wrongtype": subType(s.SubrecordData)}})
			continue
		}
		r = append(r, obj{"SRT": int(s.SubrecordType), "SRL": int(s.SubrecordLength), "SRD": subOut(s.SubrecordData)})
	}
	return r
}

func sdsOut(s egts.ServiceDataSet) []interface{} {
	r := []interface{}{}
	for i := range s {
		o := structOut(&s[i], map[string]bool{"RD": true})
		o["RD"] = rdOut(s[i].RecordDataSet)
		r = append(r, o)
	}
	return r
}

func bodyOut(b egts.BinaryData) (string, interface{}) {
	switch x := b.(type) {
	case *egts.ServiceDataSet:
		return "sds", sdsOut(*x)
	case *egts.PtResponse:
		o := obj{"RPID": int(x.ResponsePacketID), "PR": int(x.ProcessingResult), "SDR": []interface{}{}}
		if x.SDR != nil {
			if s, ok := x.SDR.(*egts.ServiceDataSet); ok {
				o["SDR"] = sdsOut(*s)
			}
		}
		return "resp", o
	case nil:
		return "none", []interface{}{}
	}
	return "other", []interface{}{}
}

var pkgSkip = map[string]bool{"SFRD": true}

func hdrOut(p *egts.Package) obj { return structOut(p, pkgSkip) }

// record set from the specification's description; mode 1 leaves lengths and
// subrecord types for the library to fill in, mode 2 puts stale lengths there.
func rdIn(subs []interface{}, mode int) egts.RecordDataSet {
	rds := egts.RecordDataSet{}
	for _, si := range subs {
		s := si.(map[string]interface{})
		t := int(s["t"].(float64))
		d := subIn(t, s["v"].(map[string]interface{}))
		rd := egts.RecordData{SubrecordType: byte(t), SubrecordData: d}
		if mode == 1 && t != 20 {
			rd.SubrecordType = 0
		}
		if mode == 2 {
			// a length left over from something else
			n := 0
			if e, err := rd.SubrecordData.Encode(); err == nil {
				n = len(e)
			}
			rd.SubrecordLength = [...]uint16{77, uint16(n + 256), uint16(n + 1), uint16(n - 1), 65535, uint16(n << 8), 1}[(n+len(subs)+t)%7]
		}
		rds = append(rds, rd)
	}
	return rds
}

func sdsIn(recs []interface{}, mode int) *egts.ServiceDataSet {
	s := egts.ServiceDataSet{}
	for _, ri := range recs {
		r := ri.(map[string]interface{})
		sdr := egts.ServiceDataRecord{}
		structIn(&sdr, r["h"].(map[string]interface{}), map[string]bool{"RD": true})
		subs, _ := r["subs"].([]interface{})
		sdr.RecordDataSet = rdIn(subs, mode)
		if mode == 2 {
			sdr.RecordLength = [...]uint16{3, 65535, 256, 21, 32768}[(int(sdr.RecordNumber)+len(subs))%5]
		}
		s = append(s, sdr)
	}
	return &s
}

func decodeJSON(b []byte) obj {
	o := obj{}
	if err := json.Unmarshal(b, &o); err != nil {
		fatal("bad input line:", err, string(b[:min(len(b), 200)]))
	}
	return o
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
