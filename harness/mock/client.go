// Package mock is an in-memory kube-apiserver for the harnesses.
package mock

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/go-logr/logr"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/fields"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/tools/events"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/healthz"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	"sigs.k8s.io/controller-runtime/pkg/webhook"
	"sigs.k8s.io/controller-runtime/pkg/webhook/conversion"
)

// ErrInjected is the error of an injected fault.
var ErrInjected = errors.New("injected fault")

// Status is an apiserver error.
func Status(reason metav1.StatusReason, code int32) error {
	return &statusErr{s: metav1.Status{Status: metav1.StatusFailure, Reason: reason, Code: code, Message: string(reason)}}
}

type statusErr struct{ s metav1.Status }

func (e *statusErr) Error() string         { return string(e.s.Reason) }
func (e *statusErr) Status() metav1.Status { return e.s }

// NotFound is a 404.
func NotFound() error { return Status(metav1.StatusReasonNotFound, http.StatusNotFound) }

// Conflict is a 409.
func Conflict() error { return Status(metav1.StatusReasonConflict, http.StatusConflict) }

// Client is a client.Client over a list of objects.
type Client struct {
	Objs []client.Object
	// Hook sees every call before it takes effect; an error fails the call.
	// verb is get, list, create, update, patch, delete, status-update, status-patch.
	Hook func(verb string, obj runtime.Object, key client.ObjectKey) error
	// After sees every effective write: old is nil for a creation, new is nil for a deletion.
	After func(verb string, old, new client.Object)
	Sch   *runtime.Scheme
	// Bump makes every write change resourceVersion
	Gen int
	// Applied sees server-side applies of apply configurations.
	Applied func(cfg runtime.ApplyConfiguration) error
	// PatchApply sees server-side applies of unstructured objects.
	PatchApply func(u *unstructured.Unstructured) error
	// Deletes sees every effective deletion with its options.
	Deletes func(obj client.Object, o *client.DeleteOptions)
	// Index has the field indexes of the cache.
	Index map[string]client.IndexerFunc
	// Certs are the Certificates that exist, as namespace/name.
	Certs map[string]bool
	// NewCerts are the Certificates that were created.
	NewCerts []*unstructured.Unstructured
}

var _ client.Client = &Client{}

// CopyInto copies src to dst when they have the same type.
func CopyInto(dst, src runtime.Object) bool {
	switch s := src.(type) {
	case *mocov1beta2.MySQLCluster:
		if d, ok := dst.(*mocov1beta2.MySQLCluster); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *mocov1beta2.BackupPolicy:
		if d, ok := dst.(*mocov1beta2.BackupPolicy); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.Pod:
		if d, ok := dst.(*corev1.Pod); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.Secret:
		if d, ok := dst.(*corev1.Secret); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.ConfigMap:
		if d, ok := dst.(*corev1.ConfigMap); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.Service:
		if d, ok := dst.(*corev1.Service); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.ServiceAccount:
		if d, ok := dst.(*corev1.ServiceAccount); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.PersistentVolumeClaim:
		if d, ok := dst.(*corev1.PersistentVolumeClaim); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.Event:
		if d, ok := dst.(*corev1.Event); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *corev1.Node:
		if d, ok := dst.(*corev1.Node); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *appsv1.StatefulSet:
		if d, ok := dst.(*appsv1.StatefulSet); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *batchv1.Job:
		if d, ok := dst.(*batchv1.Job); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *batchv1.CronJob:
		if d, ok := dst.(*batchv1.CronJob); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *rbacv1.Role:
		if d, ok := dst.(*rbacv1.Role); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *rbacv1.RoleBinding:
		if d, ok := dst.(*rbacv1.RoleBinding); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *policyv1.PodDisruptionBudget:
		if d, ok := dst.(*policyv1.PodDisruptionBudget); ok {
			s.DeepCopyInto(d)
			return true
		}
	case *storagev1.StorageClass:
		if d, ok := dst.(*storagev1.StorageClass); ok {
			s.DeepCopyInto(d)
			return true
		}
	}
	return false
}

// SameKind tells whether two objects have the same type.
func SameKind(a, b runtime.Object) bool { return KindOf(a) == KindOf(b) }

// KindOf is the kind of a typed object.
func KindOf(o runtime.Object) string {
	switch o.(type) {
	case *mocov1beta2.MySQLCluster, *mocov1beta2.MySQLClusterList:
		return "MySQLCluster"
	case *mocov1beta2.BackupPolicy, *mocov1beta2.BackupPolicyList:
		return "BackupPolicy"
	case *corev1.Pod, *corev1.PodList:
		return "Pod"
	case *corev1.Secret, *corev1.SecretList:
		return "Secret"
	case *corev1.ConfigMap, *corev1.ConfigMapList:
		return "ConfigMap"
	case *corev1.Service, *corev1.ServiceList:
		return "Service"
	case *corev1.ServiceAccount:
		return "ServiceAccount"
	case *corev1.PersistentVolumeClaim, *corev1.PersistentVolumeClaimList:
		return "PersistentVolumeClaim"
	case *corev1.Event:
		return "Event"
	case *corev1.Node:
		return "Node"
	case *appsv1.StatefulSet, *appsv1.StatefulSetList:
		return "StatefulSet"
	case *batchv1.Job, *batchv1.JobList:
		return "Job"
	case *batchv1.CronJob, *batchv1.CronJobList:
		return "CronJob"
	case *rbacv1.Role:
		return "Role"
	case *rbacv1.RoleBinding:
		return "RoleBinding"
	case *policyv1.PodDisruptionBudget:
		return "PodDisruptionBudget"
	case *storagev1.StorageClass, *storagev1.StorageClassList:
		return "StorageClass"
	case *unstructured.Unstructured:
		return "Unstructured"
	}
	vf.Unsupported("mock apiserver: kind not modelled")
	return ""
}

func (c *Client) find(o runtime.Object, key client.ObjectKey) int {
	k := KindOf(o)
	for i, x := range c.Objs {
		if KindOf(x) == k && x.GetName() == key.Name && x.GetNamespace() == key.Namespace {
			return i
		}
	}
	return -1
}

func (c *Client) hook(verb string, o runtime.Object, key client.ObjectKey) error {
	if c.Hook == nil {
		return nil
	}
	return c.Hook(verb, o, key)
}

// Get implements client.Reader.
func (c *Client) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	if err := c.hook("get", obj, key); err != nil {
		return err
	}
	if _, ok := obj.(*unstructured.Unstructured); ok {
		if c.Certs[key.Namespace+"/"+key.Name] {
			return nil
		}
		return NotFound()
	}
	i := c.find(obj, key)
	if i < 0 {
		return NotFound()
	}
	if !CopyInto(obj, c.Objs[i]) {
		vf.Unsupported("mock Get of this type")
	}
	return nil
}

// List implements client.Reader.
func (c *Client) List(ctx context.Context, list client.ObjectList, opts ...client.ListOption) error {
	if err := c.hook("list", list, client.ObjectKey{}); err != nil {
		return err
	}
	lo := client.ListOptions{}
	for _, o := range opts {
		o.ApplyToList(&lo)
	}
	if lo.FieldSelector != nil && c.Index == nil {
		vf.Unsupported("mock List with a field selector")
	}
	kind := KindOf(list)
	skip, n := len(lo.Continue), int64(0)
	for _, x := range c.Objs {
		if KindOf(x) != kind {
			continue
		}
		if lo.Namespace != "" && x.GetNamespace() != lo.Namespace {
			continue
		}
		if lo.LabelSelector != nil && !lo.LabelSelector.Matches(set(x.GetLabels())) {
			continue
		}
		if lo.FieldSelector != nil && !c.indexed(x, lo.FieldSelector) {
			continue
		}
		// pages: the token is as long as the number of objects already returned
		if skip > 0 {
			skip--
			continue
		}
		if lo.Limit > 0 && n == lo.Limit {
			list.SetContinue(strings.Repeat("x", len(lo.Continue)+int(n)))
			return nil
		}
		n++
		switch l := list.(type) {
		case *mocov1beta2.MySQLClusterList:
			l.Items = append(l.Items, *x.(*mocov1beta2.MySQLCluster).DeepCopy())
		case *corev1.PodList:
			l.Items = append(l.Items, *x.(*corev1.Pod).DeepCopy())
		case *corev1.ConfigMapList:
			l.Items = append(l.Items, *x.(*corev1.ConfigMap).DeepCopy())
		case *corev1.SecretList:
			l.Items = append(l.Items, *x.(*corev1.Secret).DeepCopy())
		case *corev1.PersistentVolumeClaimList:
			l.Items = append(l.Items, *x.(*corev1.PersistentVolumeClaim).DeepCopy())
		case *batchv1.JobList:
			l.Items = append(l.Items, *x.(*batchv1.Job).DeepCopy())
		case *batchv1.CronJobList:
			l.Items = append(l.Items, *x.(*batchv1.CronJob).DeepCopy())
		case *storagev1.StorageClassList:
			l.Items = append(l.Items, *x.(*storagev1.StorageClass).DeepCopy())
		case *appsv1.StatefulSetList:
			l.Items = append(l.Items, *x.(*appsv1.StatefulSet).DeepCopy())
		default:
			vf.Unsupported("mock List of this type")
		}
	}
	return nil
}

// IndexField implements client.FieldIndexer.
func (c *Client) IndexField(ctx context.Context, obj client.Object, field string, f client.IndexerFunc) error {
	if c.Index == nil {
		c.Index = map[string]client.IndexerFunc{}
	}
	c.Index[KindOf(obj)+" "+field] = f
	return nil
}

// indexed tells whether the cache's index has the object under the values.
func (c *Client) indexed(x client.Object, s fields.Selector) bool {
	for _, r := range s.Requirements() {
		f := c.Index[KindOf(x)+" "+r.Field]
		if f == nil {
			vf.Assert(false, "field-is-indexed")
			return false
		}
		ok := false
		for _, v := range f(x) {
			if v == r.Value {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

type set map[string]string

func (s set) Has(label string) bool   { _, ok := s[label]; return ok }
func (s set) Get(label string) string { return s[label] }
func (s set) Lookup(label string) (string, bool) {
	v, ok := s[label]
	return v, ok
}

// Apply implements client.Writer.
func (c *Client) Apply(ctx context.Context, obj runtime.ApplyConfiguration, opts ...client.ApplyOption) error {
	if c.Applied != nil {
		return c.Applied(obj)
	}
	vf.Unsupported("mock Apply")
	return nil
}

func (c *Client) bump(o client.Object) {
	c.Gen++
}

// Create implements client.Writer.
func (c *Client) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	key := client.ObjectKeyFromObject(obj)
	if err := c.hook("create", obj, key); err != nil {
		return err
	}
	if _, ok := obj.(*unstructured.Unstructured); ok {
		c.Certs[key.Namespace+"/"+key.Name] = true
		c.NewCerts = append(c.NewCerts, obj.(*unstructured.Unstructured))
		return nil
	}
	if c.find(obj, key) >= 0 {
		return Status(metav1.StatusReasonAlreadyExists, http.StatusConflict)
	}
	n := obj.DeepCopyObject().(client.Object)
	c.Objs = append(c.Objs, n)
	if c.After != nil {
		c.After("create", nil, n)
	}
	return nil
}

// Delete implements client.Writer.
func (c *Client) Delete(ctx context.Context, obj client.Object, opts ...client.DeleteOption) error {
	key := client.ObjectKeyFromObject(obj)
	if err := c.hook("delete", obj, key); err != nil {
		return err
	}
	if _, ok := obj.(*unstructured.Unstructured); ok {
		if !c.Certs[key.Namespace+"/"+key.Name] {
			return NotFound()
		}
		delete(c.Certs, key.Namespace+"/"+key.Name)
		return nil
	}
	i := c.find(obj, key)
	if i < 0 {
		return NotFound()
	}
	old := c.Objs[i]
	if c.Deletes != nil {
		do := client.DeleteOptions{}
		for _, o := range opts {
			o.ApplyToDelete(&do)
		}
		c.Deletes(old, &do)
	}
	c.Objs = append(append([]client.Object{}, c.Objs[:i]...), c.Objs[i+1:]...)
	if c.After != nil {
		c.After("delete", old, nil)
	}
	return nil
}

func (c *Client) write(verb string, obj client.Object) error {
	key := client.ObjectKeyFromObject(obj)
	if err := c.hook(verb, obj, key); err != nil {
		return err
	}
	i := c.find(obj, key)
	if i < 0 {
		return NotFound()
	}
	old := c.Objs[i]
	n := obj.DeepCopyObject().(client.Object)
	// the status and the rest of an object are separate for the kinds that
	// have the status subresource
	switch nn := n.(type) {
	case *mocov1beta2.MySQLCluster:
		oo := old.(*mocov1beta2.MySQLCluster)
		if verb == "status-update" || verb == "status-patch" {
			st := nn.Status
			oo.DeepCopyInto(nn)
			nn.Status = st
		} else {
			oo.Status.DeepCopyInto(&nn.Status)
		}
	case *corev1.Pod:
		oo := old.(*corev1.Pod)
		if verb == "status-update" || verb == "status-patch" {
			st := nn.Status
			oo.DeepCopyInto(nn)
			nn.Status = st
		} else {
			oo.Status.DeepCopyInto(&nn.Status)
		}
	}
	c.Objs[i] = n
	if c.After != nil {
		c.After(verb, old, n)
	}
	return nil
}

// Update implements client.Writer.
func (c *Client) Update(ctx context.Context, obj client.Object, opts ...client.UpdateOption) error {
	return c.write("update", obj)
}

// Patch implements client.Writer.
func (c *Client) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.PatchOption) error {
	if u, ok := obj.(*unstructured.Unstructured); ok {
		if c.PatchApply != nil {
			return c.PatchApply(u)
		}
		vf.Unsupported("mock Patch of unstructured")
	}
	key := client.ObjectKeyFromObject(obj)
	if err := c.hook("patch", obj, key); err != nil {
		return err
	}
	i := c.find(obj, key)
	if i < 0 {
		return NotFound()
	}
	old := c.Objs[i]
	if conflicts(old, obj, patch) {
		return Conflict()
	}
	n := merged(old, obj, patch)
	c.Objs[i] = n
	if c.After != nil {
		c.After("patch", old, n)
	}
	return nil
}

// DeleteAllOf implements client.Writer.
func (c *Client) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
	lo := client.DeleteAllOfOptions{}
	for _, o := range opts {
		o.ApplyToDeleteAllOf(&lo)
	}
	if err := c.hook("delete", obj, client.ObjectKey{Namespace: lo.Namespace}); err != nil {
		return err
	}
	kind := KindOf(obj)
	var keep []client.Object
	var gone []client.Object
	for _, x := range c.Objs {
		if KindOf(x) != kind || (lo.Namespace != "" && x.GetNamespace() != lo.Namespace) || (lo.LabelSelector != nil && !lo.LabelSelector.Matches(set(x.GetLabels()))) {
			keep = append(keep, x)
			continue
		}
		gone = append(gone, x)
	}
	c.Objs = keep
	for _, x := range gone {
		if c.After != nil {
			c.After("delete", x, nil)
		}
	}
	return nil
}

// Status implements client.StatusClient.
func (c *Client) Status() client.SubResourceWriter { return &sub{c, "status"} }

// SubResource implements client.SubResourceClientConstructor.
func (c *Client) SubResource(s string) client.SubResourceClient { return &sub{c, s} }

// Scheme implements client.Client.
func (c *Client) Scheme() *runtime.Scheme { return c.Sch }

// RESTMapper implements client.Client.
func (c *Client) RESTMapper() meta.RESTMapper {
	vf.Unsupported("mock RESTMapper")
	return nil
}

// GroupVersionKindFor implements client.Client.
func (c *Client) GroupVersionKindFor(obj runtime.Object) (schema.GroupVersionKind, error) {
	switch KindOf(obj) {
	case "MySQLCluster", "BackupPolicy":
		return mocov1beta2.GroupVersion.WithKind(KindOf(obj)), nil
	}
	vf.Unsupported("mock GroupVersionKindFor")
	return schema.GroupVersionKind{}, nil
}

// IsObjectNamespaced implements client.Client.
func (c *Client) IsObjectNamespaced(obj runtime.Object) (bool, error) { return true, nil }

type sub struct {
	c *Client
	n string
}

func (s *sub) Get(ctx context.Context, obj client.Object, subResource client.Object, opts ...client.SubResourceGetOption) error {
	vf.Unsupported("mock subresource get")
	return nil
}
func (s *sub) Create(ctx context.Context, obj client.Object, subResource client.Object, opts ...client.SubResourceCreateOption) error {
	vf.Unsupported("mock subresource create")
	return nil
}
func (s *sub) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	return s.c.write(s.n+"-update", obj)
}
func (s *sub) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.SubResourcePatchOption) error {
	return s.c.write(s.n+"-patch", obj)
}
func (s *sub) Apply(ctx context.Context, obj runtime.ApplyConfiguration, opts ...client.SubResourceApplyOption) error {
	vf.Unsupported("mock subresource apply")
	return nil
}

// Recorder records events.
type Recorder struct {
	On func(reason string)
	// OnEvent is given everything
	OnEvent func(obj runtime.Object, typ, reason, msg string)
}

var _ record.EventRecorder = &Recorder{}

// Event implements record.EventRecorder.
func (r *Recorder) Event(object runtime.Object, eventtype, reason, message string) {
	if r.OnEvent != nil {
		r.OnEvent(object, eventtype, reason, message)
	}
	if r.On != nil {
		r.On(reason)
	}
}

// Eventf implements record.EventRecorder.
func (r *Recorder) Eventf(object runtime.Object, eventtype, reason, messageFmt string, args ...interface{}) {
	if r.OnEvent != nil {
		r.OnEvent(object, eventtype, reason, fmt.Sprintf(messageFmt, args...))
	}
	if r.On != nil {
		r.On(reason)
	}
}

// AnnotatedEventf implements record.EventRecorder.
func (r *Recorder) AnnotatedEventf(object runtime.Object, annotations map[string]string, eventtype, reason, messageFmt string, args ...interface{}) {
	if r.OnEvent != nil {
		r.OnEvent(object, eventtype, reason, fmt.Sprintf(messageFmt, args...))
	}
	if r.On != nil {
		r.On(reason)
	}
}

// Manager is the part of a controller-runtime manager the code under check uses.
type Manager struct {
	C client.Client
	R client.Reader
	E record.EventRecorder
}

var _ manager.Manager = &Manager{}

func (m *Manager) GetHTTPClient() *http.Client               { return nil }
func (m *Manager) GetConfig() *rest.Config                   { return nil }
func (m *Manager) GetCache() cache.Cache                     { return nil }
func (m *Manager) GetScheme() *runtime.Scheme                { return m.C.Scheme() }
func (m *Manager) GetClient() client.Client                  { return m.C }
func (m *Manager) GetFieldIndexer() client.FieldIndexer      { return nil }
func (m *Manager) GetRESTMapper() meta.RESTMapper            { return nil }
func (m *Manager) GetAPIReader() client.Reader               { return m.R }
func (m *Manager) Start(ctx context.Context) error           { return nil }
func (m *Manager) Add(manager.Runnable) error                { return nil }
func (m *Manager) Elected() <-chan struct{}                  { return nil }
func (m *Manager) GetWebhookServer() webhook.Server          { return nil }
func (m *Manager) GetLogger() logr.Logger                    { return logr.Discard() }
func (m *Manager) GetControllerOptions() config.Controller   { return config.Controller{} }
func (m *Manager) GetConverterRegistry() conversion.Registry { return nil }
func (m *Manager) AddMetricsServerExtraHandler(path string, handler http.Handler) error {
	return nil
}
func (m *Manager) AddHealthzCheck(name string, check healthz.Checker) error { return nil }
func (m *Manager) AddReadyzCheck(name string, check healthz.Checker) error  { return nil }

// GetEventRecorderFor implements manager.Manager.
func (m *Manager) GetEventRecorderFor(name string) record.EventRecorder { return m.E }

// GetEventRecorder implements manager.Manager.
func (m *Manager) GetEventRecorder(name string) events.EventRecorder {
	vf.Unsupported("mock GetEventRecorder")
	return nil
}

// Key makes an object key.
func Key(ns, name string) types.NamespacedName {
	return types.NamespacedName{Namespace: ns, Name: name}
}
