// Package dynamodb is a model of the DynamoDB client and the service behind
// it: items with conditional puts and updates, and reads that are eventually
// consistent unless they ask for consistency.
package dynamodb

import (
	"strings"
	"sync"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/awserr"
	"github.com/aws/aws-sdk-go/aws/request"
	"github.com/aws/aws-sdk-go/aws/session"
)

const (
	ErrCodeConditionalCheckFailedException        = "ConditionalCheckFailedException"
	ErrCodeResourceNotFoundException              = "ResourceNotFoundException"
	ErrCodeResourceInUseException                 = "ResourceInUseException"
	ErrCodeInternalServerError                    = "InternalServerError"
	ErrCodeProvisionedThroughputExceededException = "ProvisionedThroughputExceededException"
	ErrCodeRequestLimitExceeded                   = "RequestLimitExceeded"
)

// AttributeValue is a value.
type AttributeValue struct {
	S    *string
	N    *string
	B    []byte
	BOOL *bool
	NULL *bool
}

type (
	AttributeDefinition   struct{ AttributeName, AttributeType *string }
	KeySchemaElement      struct{ AttributeName, KeyType *string }
	ProvisionedThroughput struct{ ReadCapacityUnits, WriteCapacityUnits *int64 }
	CreateTableInput      struct {
		TableName, BillingMode *string
		AttributeDefinitions   []*AttributeDefinition
		KeySchema              []*KeySchemaElement
		ProvisionedThroughput  *ProvisionedThroughput
	}
	CreateTableOutput struct{}
	GetItemInput      struct {
		Key                      map[string]*AttributeValue
		TableName                *string
		AttributesToGet          []*string
		ConsistentRead           *bool
		ExpressionAttributeNames map[string]*string
		ProjectionExpression     *string
		ReturnConsumedCapacity   *string
	}
	GetItemOutput struct{ Item map[string]*AttributeValue }
	PutItemInput  struct {
		Item                      map[string]*AttributeValue
		TableName                 *string
		ConditionExpression       *string
		ExpressionAttributeNames  map[string]*string
		ExpressionAttributeValues map[string]*AttributeValue
		ReturnValues              *string
	}
	PutItemOutput   struct{ Attributes map[string]*AttributeValue }
	UpdateItemInput struct {
		Key                       map[string]*AttributeValue
		TableName                 *string
		ConditionExpression       *string
		UpdateExpression          *string
		ExpressionAttributeNames  map[string]*string
		ExpressionAttributeValues map[string]*AttributeValue
		ReturnValues              *string
	}
	UpdateItemOutput struct{ Attributes map[string]*AttributeValue }
	DeleteItemInput  struct {
		Key                       map[string]*AttributeValue
		TableName                 *string
		ConditionExpression       *string
		ExpressionAttributeNames  map[string]*string
		ExpressionAttributeValues map[string]*AttributeValue
	}
	DeleteItemOutput struct{}
)

type item map[string]AttributeValue

// history of an item: what it was, oldest first; nil is absence.
type slot struct {
	key      string
	versions []item
}

type table struct {
	key   string
	slots []*slot
}

var (
	mu     sync.Mutex
	tables = map[string]*table{}
	// Fault is asked before ("get", "put", "update", "delete") and after
	// ("after-put", …) the effect of a request; its error is the request's.
	Fault func(op string) error
	// Stale chooses which of n versions an eventually consistent read sees, n-1 is the latest.
	Stale func(n int) int
)

// Reset empties the service.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	tables = map[string]*table{}
	Fault, Stale = nil, nil
}

// Values are all strings the service holds now.
func Values() []string {
	mu.Lock()
	defer mu.Unlock()
	var r []string
	for _, t := range tables {
		for _, s := range t.slots {
			for k, v := range s.versions[len(s.versions)-1] {
				if v.S != nil && k != t.key {
					r = append(r, *v.S)
				}
			}
		}
	}
	return r
}

func fault(op string) error {
	if Fault == nil {
		return nil
	}
	return Fault(op)
}

func unsupported(what string) { panic("aws model: unsupported: " + what) }

func invalid(msg string) error { return awserr.New("ValidationException", msg, nil) }

// DynamoDB is a client.
type DynamoDB struct{}

// New makes a client.
func New(s *session.Session, _ ...*aws.Config) *DynamoDB { return &DynamoDB{} }

func find(name *string) (*table, error) {
	t := tables[aws.StringValue(name)]
	if t == nil {
		return nil, awserr.New(ErrCodeResourceNotFoundException, "Requested resource not found", nil)
	}
	return t, nil
}

func (t *table) slot(key map[string]*AttributeValue) (*slot, error) {
	k := key[t.key]
	if k == nil || k.S == nil {
		return nil, invalid("The provided key element does not match the schema")
	}
	if *k.S == "" {
		return nil, invalid("One or more parameter values are not valid. The AttributeValue for a key attribute cannot contain an empty string value. Key: " + t.key)
	}
	for _, s := range t.slots {
		if s.key == *k.S {
			return s, nil
		}
	}
	s := &slot{key: *k.S, versions: []item{nil}}
	t.slots = append(t.slots, s)
	return s, nil
}

func (s *slot) now() item { return s.versions[len(s.versions)-1] }

func (d *DynamoDB) CreateTable(in *CreateTableInput) (*CreateTableOutput, error) {
	mu.Lock()
	defer mu.Unlock()
	name := aws.StringValue(in.TableName)
	if tables[name] != nil {
		return nil, awserr.New(ErrCodeResourceInUseException, "Table already exists: "+name, nil)
	}
	if len(in.KeySchema) != 1 || aws.StringValue(in.KeySchema[0].KeyType) != "HASH" {
		unsupported("key schema")
	}
	if len(in.AttributeDefinitions) != 1 || aws.StringValue(in.AttributeDefinitions[0].AttributeName) != aws.StringValue(in.KeySchema[0].AttributeName) {
		return nil, invalid("attribute definitions")
	}
	if aws.StringValue(in.AttributeDefinitions[0].AttributeType) != "S" {
		unsupported("key type")
	}
	tables[name] = &table{key: aws.StringValue(in.KeySchema[0].AttributeName)}
	return &CreateTableOutput{}, nil
}

func (d *DynamoDB) GetItemWithContext(ctx aws.Context, in *GetItemInput, _ ...request.Option) (*GetItemOutput, error) {
	if err := ctx.Err(); err != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", err)
	}
	return d.GetItem(in)
}

func (d *DynamoDB) GetItem(in *GetItemInput) (*GetItemOutput, error) {
	if err := fault("get"); err != nil {
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	t, err := find(in.TableName)
	if err != nil {
		return nil, err
	}
	s, err := t.slot(in.Key)
	if err != nil {
		return nil, err
	}
	x := s.now()
	if !aws.BoolValue(in.ConsistentRead) && Stale != nil {
		if n := len(s.versions); n > 1 {
			x = s.versions[Stale(n)]
		}
	}
	var want map[string]bool
	if in.AttributesToGet != nil {
		if in.ProjectionExpression != nil {
			return nil, invalid("Can not use both expression and non-expression parameters in the same request")
		}
		want = map[string]bool{}
		for _, a := range in.AttributesToGet {
			want[aws.StringValue(a)] = true
		}
	} else if in.ProjectionExpression != nil {
		want = map[string]bool{}
		for _, a := range strings.Split(*in.ProjectionExpression, ",") {
			want[name(strings.TrimSpace(a), in.ExpressionAttributeNames)] = true
		}
	}
	out := &GetItemOutput{}
	if x != nil {
		out.Item = map[string]*AttributeValue{}
		for k, v := range x {
			if want == nil || want[k] {
				c := v
				out.Item[k] = &c
			}
		}
	}
	return out, nil
}

func name(n string, names map[string]*string) string {
	if strings.HasPrefix(n, "#") {
		v := names[n]
		if v == nil {
			unsupported("undefined name " + n)
		}
		return *v
	}
	return n
}

// holds evaluates a condition.
func holds(cond *string, x item, names map[string]*string) bool {
	if cond == nil {
		return true
	}
	ok := true
	for _, c := range strings.Split(strings.Replace(*cond, " and ", " AND ", -1), " AND ") {
		c = strings.TrimSpace(c)
		i := strings.Index(c, "(")
		if i < 0 || !strings.HasSuffix(c, ")") {
			unsupported("condition " + c)
		}
		_, has := x[name(strings.TrimSpace(c[i+1:len(c)-1]), names)]
		switch strings.TrimSpace(c[:i]) {
		case "attribute_not_exists":
			ok = ok && !has
		case "attribute_exists":
			ok = ok && has
		default:
			unsupported("condition " + c)
		}
	}
	return ok
}

func conditionFailed() error {
	return awserr.New(ErrCodeConditionalCheckFailedException, "The conditional request failed", nil)
}

func (d *DynamoDB) PutItemWithContext(ctx aws.Context, in *PutItemInput, _ ...request.Option) (*PutItemOutput, error) {
	if err := ctx.Err(); err != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", err)
	}
	return d.PutItem(in)
}

func (d *DynamoDB) PutItem(in *PutItemInput) (*PutItemOutput, error) {
	if err := fault("put"); err != nil {
		return nil, err
	}
	if err := d.put(in); err != nil {
		return nil, err
	}
	if err := fault("after-put"); err != nil {
		return nil, err
	}
	return &PutItemOutput{}, nil
}

func (d *DynamoDB) put(in *PutItemInput) error {
	mu.Lock()
	defer mu.Unlock()
	t, err := find(in.TableName)
	if err != nil {
		return err
	}
	s, err := t.slot(in.Item)
	if err != nil {
		return err
	}
	if !holds(in.ConditionExpression, s.now(), in.ExpressionAttributeNames) {
		return conditionFailed()
	}
	x := item{}
	for k, v := range in.Item {
		x[k] = *v
	}
	s.versions = append(s.versions, x)
	return nil
}

func (d *DynamoDB) UpdateItemWithContext(ctx aws.Context, in *UpdateItemInput, _ ...request.Option) (*UpdateItemOutput, error) {
	if err := ctx.Err(); err != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", err)
	}
	return d.UpdateItem(in)
}

func (d *DynamoDB) UpdateItem(in *UpdateItemInput) (*UpdateItemOutput, error) {
	if err := fault("update"); err != nil {
		return nil, err
	}
	if err := d.update(in); err != nil {
		return nil, err
	}
	if err := fault("after-update"); err != nil {
		return nil, err
	}
	return &UpdateItemOutput{}, nil
}

func (d *DynamoDB) update(in *UpdateItemInput) error {
	mu.Lock()
	defer mu.Unlock()
	t, err := find(in.TableName)
	if err != nil {
		return err
	}
	s, err := t.slot(in.Key)
	if err != nil {
		return err
	}
	if !holds(in.ConditionExpression, s.now(), in.ExpressionAttributeNames) {
		return conditionFailed()
	}
	x := item{}
	for k, v := range s.now() {
		x[k] = v
	}
	x[t.key] = *in.Key[t.key]
	used := map[string]bool{}
	op := ""
	words := strings.Fields(strings.Replace(strings.Replace(aws.StringValue(in.UpdateExpression), ",", " , ", -1), "=", " = ", -1))
	for i := 0; i < len(words); i++ {
		switch w := words[i]; {
		case w == ",":
		case strings.ToUpper(w) == "SET" || strings.ToUpper(w) == "REMOVE":
			op = strings.ToUpper(w)
		case op == "SET" && i+2 < len(words) && words[i+1] == "=" && strings.HasPrefix(words[i+2], ":"):
			v := in.ExpressionAttributeValues[words[i+2]]
			if v == nil {
				return invalid("Invalid UpdateExpression: An expression attribute value used in expression is not defined; attribute value: " + words[i+2])
			}
			used[words[i+2]], used[w] = true, true
			x[name(w, in.ExpressionAttributeNames)] = *v
			i += 2
		case op == "REMOVE":
			used[w] = true
			delete(x, name(w, in.ExpressionAttributeNames))
		default:
			unsupported("update expression " + aws.StringValue(in.UpdateExpression))
		}
	}
	for k := range in.ExpressionAttributeValues {
		if !used[k] {
			return invalid("Value provided in ExpressionAttributeValues unused in expressions: keys: {" + k + "}")
		}
	}
	for k := range in.ExpressionAttributeNames {
		if !used[k] && !strings.Contains(aws.StringValue(in.ConditionExpression), k) {
			return invalid("Value provided in ExpressionAttributeNames unused in expressions: keys: {" + k + "}")
		}
	}
	s.versions = append(s.versions, x)
	return nil
}

func (d *DynamoDB) DeleteItem(in *DeleteItemInput) (*DeleteItemOutput, error) {
	if err := fault("delete"); err != nil {
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	t, err := find(in.TableName)
	if err != nil {
		return nil, err
	}
	s, err := t.slot(in.Key)
	if err != nil {
		return nil, err
	}
	if !holds(in.ConditionExpression, s.now(), in.ExpressionAttributeNames) {
		return nil, conditionFailed()
	}
	s.versions = append(s.versions, nil)
	return &DeleteItemOutput{}, nil
}
