package hrec

import (
	"errors"
	"io"
	"strings"
	"text/template"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/structured-merge-diff/v6/typed"
)

// CallSite stands in for naming.GetNameFromCallsite.
func CallSite(ignored ...string) string { return "" }

// GVK stands in for apiutil.GVKForObject.
func GVK(obj runtime.Object, scheme *runtime.Scheme) (schema.GroupVersionKind, error) {
	if _, ok := obj.(*mocov1beta2.MySQLCluster); !ok {
		vf.Unsupported("GVK of this type")
	}
	return mocov1beta2.GroupVersion.WithKind("MySQLCluster"), nil
}

// Parser stands in for applyconfigurations/internal.Parser.
func Parser() *typed.Parser { return &typed.Parser{} }

type tmpl struct {
	t    *template.Template
	text string
}

// no initialiser: templates are parsed before this package is initialised
var tmpls []*tmpl

// TemplateParse stands in for (*template.Template).Parse.
func TemplateParse(t *template.Template, text string) (*template.Template, error) {
	tmpls = append(tmpls, &tmpl{t, text})
	return t, nil
}

// TemplateNew stands in for template.New.
func TemplateNew(name string) *template.Template { return &template.Template{} }

// TemplateExecute stands in for (*template.Template).Execute; the rendering is
// done by the real text/template.
func TemplateExecute(t *template.Template, w io.Writer, data any) error {
	for _, x := range tmpls {
		if x.t == t {
			s, ok := vf.Template(x.text, data)
			if !ok {
				return errTemplate
			}
			_, err := w.Write([]byte(s))
			return err
		}
	}
	vf.Unsupported("template not parsed")
	return nil
}

var errTemplate = errors.New("template")

// yamlSerializer decodes the YAML of nested maps and lists of scalars.
type yamlSerializer struct{ runtime.Serializer }

// NewYAML stands in for yaml.NewDecodingSerializer.
func NewYAML(d runtime.Decoder) runtime.Serializer { return yamlSerializer{} }

func (yamlSerializer) Decode(data []byte, _ *schema.GroupVersionKind, into runtime.Object) (runtime.Object, *schema.GroupVersionKind, error) {
	u := into.(*unstructured.Unstructured)
	lines := []string{}
	for _, l := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	m, _ := parseYAML(lines, 0)
	u.Object = m.(map[string]interface{})
	return into, nil, nil
}

func indent(s string) int {
	n := 0
	for n < len(s) && s[n] == ' ' {
		n++
	}
	return n
}

func scalar(s string) interface{} { return strings.Trim(strings.TrimSpace(s), "\"") }

// parseYAML parses the block at the indentation of the first line.
func parseYAML(lines []string, at int) (interface{}, int) {
	ind := indent(lines[at])
	if strings.HasPrefix(lines[at][ind:], "- ") {
		var l []interface{}
		for at < len(lines) && indent(lines[at]) == ind && strings.HasPrefix(lines[at][ind:], "- ") {
			l = append(l, scalar(lines[at][ind+2:]))
			at++
		}
		return l, at
	}
	m := map[string]interface{}{}
	for at < len(lines) && indent(lines[at]) == ind {
		k, v, _ := strings.Cut(lines[at][ind:], ":")
		at++
		if strings.TrimSpace(v) != "" {
			m[k] = scalar(v)
			continue
		}
		var sub interface{}
		sub, at = parseYAML(lines, at)
		m[k] = sub
	}
	return m, at
}

var randCount byte

// RandRead stands in for crypto/rand.Read: no two reads are equal.
func RandRead(b []byte) (int, error) {
	randCount++
	for i := range b {
		b[i] = randCount
	}
	return len(b), nil
}
