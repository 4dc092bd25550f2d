package mock

import (
	"encoding/json"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"reflect"

	vf "github.com/cybozu-go/moco/zzvf"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// MergePatch stands for client.MergeFrom under the symbolic executor: the
// difference is computed on the objects and not on their JSON.
type MergePatch struct {
	From client.Object
	Lock bool
}

// Type implements client.Patch.
func (p *MergePatch) Type() types.PatchType { return types.MergePatchType }

// Data implements client.Patch.
func (p *MergePatch) Data(obj client.Object) ([]byte, error) {
	vf.Unsupported("merge patch data")
	return nil, nil
}

// MergeFrom is the stand-in for client.MergeFrom.
func MergeFrom(obj client.Object) client.Patch { return &MergePatch{From: obj} }

// MergeFromWithOptions is the stand-in for client.MergeFromWithOptions.
func MergeFromWithOptions(obj client.Object, opts ...client.MergeFromOption) client.Patch {
	o := client.MergeFromOptions{}
	for _, x := range opts {
		x.ApplyToMergeFrom(&o)
	}
	return &MergePatch{From: obj, Lock: o.OptimisticLock}
}

// conflicts tells whether the patch is for another version of the object.
func conflicts(stored, obj client.Object, patch client.Patch) bool {
	if vf.Symbolic() {
		mp, ok := patch.(*MergePatch)
		return ok && mp.Lock && mp.From.GetResourceVersion() != stored.GetResourceVersion()
	}
	data, err := patch.Data(obj)
	if err != nil {
		panic(err)
	}
	var x struct {
		Metadata struct {
			ResourceVersion *string `json:"resourceVersion"`
		} `json:"metadata"`
	}
	if json.Unmarshal(data, &x) != nil {
		panic("bad patch")
	}
	return x.Metadata.ResourceVersion != nil && *x.Metadata.ResourceVersion != stored.GetResourceVersion()
}

func mergeMap(stored, from, to map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range stored {
		r[k] = v
	}
	for k := range from {
		if _, ok := to[k]; !ok {
			delete(r, k)
		}
	}
	for k, v := range to {
		if o, ok := from[k]; !ok || o != v {
			r[k] = v
		}
	}
	return r
}

// merged is the stored object after the patch.
func merged(stored, obj client.Object, patch client.Patch) client.Object {
	n := stored.DeepCopyObject().(client.Object)
	if vf.Symbolic() {
		mp, ok := patch.(*MergePatch)
		if !ok {
			vf.Unsupported("mock Patch: kind of patch")
		}
		n.SetLabels(mergeMap(n.GetLabels(), mp.From.GetLabels(), obj.GetLabels()))
		n.SetAnnotations(mergeMap(n.GetAnnotations(), mp.From.GetAnnotations(), obj.GetAnnotations()))
		if !reflect.DeepEqual(mp.From.GetFinalizers(), obj.GetFinalizers()) {
			n.SetFinalizers(obj.GetFinalizers())
		}
		switch t := n.(type) {
		case *corev1.Pod:
		case *mocov1beta2.MySQLCluster:
			if !reflect.DeepEqual(mp.From.(*mocov1beta2.MySQLCluster).Spec, obj.(*mocov1beta2.MySQLCluster).Spec) {
				vf.Unsupported("mock Patch of a MySQLCluster's spec")
			}
		case *appsv1.StatefulSet:
			f, o := mp.From.(*appsv1.StatefulSet), obj.(*appsv1.StatefulSet)
			if !reflect.DeepEqual(f.Spec.UpdateStrategy, o.Spec.UpdateStrategy) {
				o.Spec.UpdateStrategy.DeepCopyInto(&t.Spec.UpdateStrategy)
			}
			if !reflect.DeepEqual(f.Spec.Replicas, o.Spec.Replicas) {
				t.Spec.Replicas = o.Spec.Replicas
			}
		default:
			vf.Unsupported("mock Patch of this kind")
		}
		return n
	}
	data, err := patch.Data(obj)
	if err != nil {
		panic(err)
	}
	cur, err := json.Marshal(stored)
	if err != nil {
		panic(err)
	}
	var a, b map[string]any
	if json.Unmarshal(cur, &a) != nil || json.Unmarshal(data, &b) != nil {
		panic("bad patch")
	}
	res, err := json.Marshal(jsonMerge(a, b))
	if err != nil {
		panic(err)
	}
	n = reflect.New(reflect.TypeOf(stored).Elem()).Interface().(client.Object)
	if err := json.Unmarshal(res, n); err != nil {
		panic(err)
	}
	return n
}

func jsonMerge(a, b map[string]any) map[string]any {
	if a == nil {
		a = map[string]any{}
	}
	for k, v := range b {
		if v == nil {
			delete(a, k)
			continue
		}
		if bm, ok := v.(map[string]any); ok {
			am, _ := a[k].(map[string]any)
			a[k] = jsonMerge(am, bm)
			continue
		}
		a[k] = v
	}
	return a
}
