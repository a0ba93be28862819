package response

import (
	"strconv"
	"strings"
)

// C35: a server-sent event decodes to exactly the event that was encoded.

// specDecodeEvents reads an event stream as a browser does (WHATWG HTML, section 9.2.6), keeping the data lines apart.
func specDecodeEvents(text string) (evts []ServerSentEvent) {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	text = strings.ReplaceAll(text, "\r", "\n")
	lines := strings.Split(text, "\n")
	lines = lines[:len(lines)-1] // the last piece is not terminated
	var e ServerSentEvent
	has := false
	for _, line := range lines {
		if line == "" {
			if has {
				evts = append(evts, e)
			}
			e, has = ServerSentEvent{}, false
			continue
		}
		field, value, found := strings.Cut(line, ":")
		if field == "" && found {
			continue
		}
		value = strings.TrimPrefix(value, " ")
		switch field {
		case "event":
			e.Name = value
		case "data":
			e.Data = append(e.Data, value)
			has = true
		case "id":
			if !strings.Contains(value, "\x00") {
				e.Id = value
			}
		case "retry":
			if n, err := strconv.Atoi(value); err == nil {
				e.Retry = n
			}
		}
	}
	return evts
}

//gov:bounded generated events, sequences of up to 3
func prop_C35_roundtrip(evts []ServerSentEvent) {
	text := ""
	for _, e := range evts {
		text += e.String()
	}
	got := specDecodeEvents(text)
	vAssert(len(got) == len(evts), "one-event-each")
	for i := range evts {
		if i < len(got) {
			vAssert(got[i].Name == evts[i].Name, "name")
			vAssert(got[i].Id == evts[i].Id, "id")
			vAssert(specSameList(got[i].Data, evts[i].Data), "data-lines-in-order")
			vAssert(got[i].Retry == evts[i].Retry || evts[i].Retry <= 0 && got[i].Retry == 0, "retry")
		}
	}
}

func genSpecLine(r *vRand) string {
	return strings.NewReplacer("\n", "", "\r", "", "\x00", "").Replace(r.oneOf("", " ", ":", "data: x", r.str(), r.str()))
}
func gen_prop_C35_roundtrip(r *vRand) (evts []ServerSentEvent) {
	for n := r.Intn(4); n > 0; n-- {
		evts = append(evts, genSpecEvent(r))
	}
	return evts
}
func genSpecEvent(r *vRand) ServerSentEvent {
	e := ServerSentEvent{Name: genSpecLine(r), Id: genSpecLine(r), Retry: r.integer()}
	for n := 1 + r.Intn(3); n > 0; n-- {
		e.Data = append(e.Data, genSpecLine(r))
	}
	return e
}

func prop_C35_empty() {
	vAssert(ServerSentEvent{}.String() == "", "nothing")
	vAssert(ServerSentEvent{Retry: -1}.String() == "", "nothing-without-retry")
}
