// Package settings lists the agent's documented settings, independently of its code.
package settings

import (
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"pgregory.net/rapid"
)

type Setting struct {
	Key, Field, Def string
	Kind            byte // s string, i int, b bool, z size (positive)
}

// All is every setting, with the field that holds it and its default.
var All = func() []Setting {
	l := []Setting{
		{"obj_name", "ObjNameSimple", "go1", 's'}, {"obj_type", "ObjType", "golang", 's'},
		{"trace_obj_send", "TraceObjSend", "false", 'b'}, {"send_queue_size", "SendQueueSize", "3000", 'z'},
		{"net_collector_ip", "NetCollectorIP", "127.0.0.1", 's'}, {"net_collector_udp_port", "NetCollectorUDPPort", "6100", 'i'},
		{"net_collector_tcp_port", "NetCollectorTCPPort", "6100", 'i'}, {"net_collector_tcp_so_timeout_ms", "NetCollectorTcpSoTimeoutMs", "60000", 'i'},
		{"net_collector_tcp_connection_timeout_ms", "NetCollectorTcpConnectionTimeoutMs", "3000", 'i'}, {"udp_max_bytes", "UDPMaxBytes", "60000", 'z'},
		{"stuck_service_base_time_ms", "StuckServiceBaseTimeMs", "300000", 'i'}, {"stuck_service_remove_enabled", "StuckServiceRemoveEnabled", "true", 'b'},
		{"stuck_service_alert_enabled", "StuckServiceAlertEnabled", "true", 'b'},
		{"trace_activeservice_yellow_time", "TraceActiveserviceYellowTime", "3000", 'i'}, {"trace_activeservice_red_time", "TraceActiveserviceRedTime", "8000", 'i'},
		{"profile_step_max_keep_in_memory_count", "ProfileStepMaxKeepInMemoryCount", "2048", 'z'}, {"profile_step_max_count", "ProfileStepMaxCount", "1024", 'z'},
		{"profile_http_querystring_enabled", "ProfileHttpQuerystringEnabled", "false", 'b'}, {"profile_http_header_enabled", "ProfileHttpHeaderEnabled", "false", 'b'},
		{"profile_http_header_keys", "ProfileHttpHeaderKeys", "", 's'}, {"trace_http_client_ip_header_key", "TraceHttpClientIpHeaderKey", "", 's'},
		{"xlog_discard_service_patterns", "XlogDiscardServicePatterns", "", 's'}, {"xlog_discard_service_show_error", "XlogDiscardServiceShowError", "true", 'b'},
		{"xlog_sampling_exclude_patterns", "XlogSamplingExcludePatterns", "", 's'},
	}
	for _, g := range [][2]string{{"xlog_sampling", "XlogSampling"}, {"xlog_patterned_sampling", "XlogPatternedSampling"},
		{"xlog_patterned2_sampling", "XlogPatterned2Sampling"}, {"xlog_patterned3_sampling", "XlogPatterned3Sampling"}} {
		l = append(l, Setting{g[0] + "_enabled", g[1] + "Enabled", "false", 'b'}, Setting{g[0] + "_only_profile", g[1] + "OnlyProfile", "false", 'b'},
			Setting{g[0] + "_step1_ms", g[1] + "Step1Ms", "100", 'i'}, Setting{g[0] + "_step1_rate_pct", g[1] + "Step1RatePct", "2", 'i'},
			Setting{g[0] + "_step2_ms", g[1] + "Step2Ms", "500", 'i'}, Setting{g[0] + "_step2_rate_pct", g[1] + "Step2RatePct", "7", 'i'},
			Setting{g[0] + "_step3_ms", g[1] + "Step3Ms", "1000", 'i'}, Setting{g[0] + "_step3_rate_pct", g[1] + "Step3RatePct", "15", 'i'},
			Setting{g[0] + "_over_rate_pct", g[1] + "OverRatePct", "3000", 'i'})
		if g[0] != "xlog_sampling" {
			l = append(l, Setting{g[0] + "_service_patterns", g[1] + "ServicePatterns", "", 's'})
		}
	}
	return l
}()

// Want is the value a setting takes from the raw text v ("" meaning not given).
func (s Setting) Want(v string) string {
	if v == "" {
		return s.Def
	}
	switch s.Kind {
	case 'i', 'z':
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil || s.Kind == 'z' && n <= 0 {
			return s.Def
		}
		return strconv.FormatInt(n, 10)
	case 'b':
		switch strings.ToLower(v) {
		case "true", "1", "yes", "on":
			return "true"
		}
		return "false"
	}
	return v
}

func (s Setting) Got(c *conf.Configure) string {
	return fmt.Sprint(reflect.ValueOf(c).Elem().FieldByName(s.Field).Interface())
}

// GenValue draws a raw value, often an odd one.
func GenValue(rt *rapid.T, s Setting) string {
	if rapid.IntRange(0, 9).Draw(rt, "emptyp") == 0 {
		return ""
	}
	switch s.Kind {
	case 'i', 'z':
		max := 2147483647
		if s.Kind == 'z' {
			max = 60000
		}
		return rapid.OneOf(
			rapid.Map(rapid.IntRange(1, max), strconv.Itoa),
			rapid.Map(rapid.IntRange(-100000, 100), strconv.Itoa),
			rapid.SampledFrom([]string{"0", "-1", "007", "+12", "abc", "12x", "1.5", "0x10", "99999999999999999999", "--3", "1 2", "true", "1e3", "٣"}),
		).Draw(rt, "num")
	case 'b':
		return rapid.SampledFrom([]string{"true", "false", "TRUE", "False", "true", "false"}).Draw(rt, "bool")
	}
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9_.:/,*<>=+-]{1,24}`),
		rapid.SampledFrom([]string{"a=b", "k=v=w", "with space", " lead", "/order/*,/pay*", "#hash", "!bang", "x:y", "back\\slash", "tab\tin", "new\nline", "한글이름", "é", "=", "a#b", "127.0.0.2", "$x", "{}"}),
	).Draw(rt, "str")
}

// Line writes a property in one of the spellings of the file format.
func Line(rt *rapid.T, k, v string) string {
	sep := rapid.SampledFrom([]string{"=", " = ", ":", " : ", "=", " ", "\t=", "= "}).Draw(rt, "sep")
	lead := rapid.SampledFrom([]string{"", "", "", " ", "\t"}).Draw(rt, "lead")
	var b strings.Builder
	for i, r := range v {
		switch {
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case i == 0 && (r == ' ' || r == '=' || r == ':'):
			b.WriteString(`\` + string(r))
		case r > 127 && r < 0xd800 && rapid.Bool().Draw(rt, "uesc"):
			fmt.Fprintf(&b, `\u%04x`, r)
		case i > 0 && r != ' ' && rapid.IntRange(0, 60).Draw(rt, "cont") == 0:
			b.WriteString("\\\n   " + string(r))
		default:
			b.WriteRune(r)
		}
	}
	return lead + k + sep + b.String()
}

// Place writes the configuration file in one step.
func Place(t rapid.TB, path, text string, mt time.Time) {
	tmp := path + ".new"
	if err := os.WriteFile(tmp, []byte(text), 0644); err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	os.Chtimes(tmp, mt, mt)
	if err := os.Rename(tmp, path); err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
}
