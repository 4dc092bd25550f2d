package hbkcmd

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// serve is the apiserver and the object storage of native runs.
func (w *World) serve() {
	for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_ACCESS_KEY": "b", "AWS_REGION": "here", "AWS_EC2_METADATA_DISABLED": "true"} {
		_ = os.Setenv(k, v)
	}
	s := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		reply := func(o any) {
			rw.Header().Set("Content-Type", "application/json")
			_ = json.NewEncoder(rw).Encode(o)
		}
		f := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
		switch {
		case r.URL.Query().Get("list-type") == "2":
			w.bucket = f[0]
			fmt.Fprintf(rw, `<?xml version="1.0"?><ListBucketResult><Name>x</Name><IsTruncated>false</IsTruncated>`)
			for _, k := range w.list(r.URL.Query().Get("prefix")) {
				fmt.Fprintf(rw, `<Contents><Key>%s</Key></Contents>`, k)
			}
			fmt.Fprintf(rw, `</ListBucketResult>`)
		case r.URL.Path == "/api":
			reply(metav1.APIVersions{TypeMeta: metav1.TypeMeta{Kind: "APIVersions"}, Versions: []string{"v1"}})
		case r.URL.Path == "/apis":
			reply(metav1.APIGroupList{TypeMeta: metav1.TypeMeta{Kind: "APIGroupList", APIVersion: "v1"}})
		case r.URL.Path == "/api/v1":
			reply(metav1.APIResourceList{TypeMeta: metav1.TypeMeta{Kind: "APIResourceList", APIVersion: "v1"}, GroupVersion: "v1",
				APIResources: []metav1.APIResource{{Name: "pods", SingularName: "pod", Namespaced: true, Kind: "Pod", Verbs: metav1.Verbs{"get", "list"}}}})
		case len(f) == 6 && f[4] == "pods":
			p := &corev1.Pod{}
			if err := w.c.Get(r.Context(), client.ObjectKey{Namespace: f[3], Name: f[5]}, p); err != nil {
				rw.WriteHeader(404)
				reply(metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Reason: metav1.StatusReasonNotFound, Code: 404})
				return
			}
			p.APIVersion, p.Kind = "v1", "Pod"
			reply(p)
		default:
			rw.WriteHeader(500)
		}
	}))
	w.url = s.URL
	w.cfg = &rest.Config{Host: s.URL}
}
