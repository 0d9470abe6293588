#!/usr/bin/env python3
# Used once to derive harness/h/model.go from the pristine entity types; the
# result was compared with the OpenAPI schemas and is the committed oracle.
# It is not run by the checks.
import re,sys
def gen(ver,pkg):
    s=open(f'/repo/{pkg}/entities.go').read()
    out=[f'var model{ver} = []ent_{{'.replace('ent_','entT')]
    for m in re.finditer(r'^type (\w+) struct(?:\{\}|\s\{\n(.*?)^\})',s,re.M|re.S):
        name,body=m.group(1),m.group(2) or ''
        fs=[]
        lines=[l.strip() for l in body.split('\n') if '`json' in l]
        union=all('json:"-"' in l for l in lines) and not any('map[' in l for l in lines) and lines
        for l in lines:
            f,tag=l.split()[0],re.search(r'json:"(.*?)"',l).group(1)
            if tag!='-':
                key=tag.split(',')[0]
                k='opt' if 'omitempty' in tag else 'req'
            else:
                key=''
                if f=='MapOfAnything': k='ext'
                elif f=='ReflectType': k='skip'
                elif name=='Parameter' or name=='HTTPSecurityScheme': k='derived'
                elif union or name=='SecurityScheme': k='alt'
                else: k='pat'
            fs.append(f'{{"{f}", "{key}", {k}}}')
        out.append(f'\t{{"{name}", reflect.TypeOf({pkg}.{name}{{}}), []mem{{{", ".join(fs)}}}}},')
    out.append('}')
    return '\n'.join(out)
print('package h\n\nimport (\n\t"reflect"\n\n\t"github.com/swaggest/openapi-go/openapi3"\n\t"github.com/swaggest/openapi-go/openapi31"\n)\n')
print(gen('3','openapi3'));print();print(gen('31','openapi31'))
