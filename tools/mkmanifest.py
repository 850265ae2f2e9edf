import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
claimed=json.load(open(root+'/tools/claimed.json'))
na={'C08':'The guarantee lies in encoding/asn1, crypto/rsa and crypto/x509, whose results would have to be assumed wholesale (parsing by reflection, RSA verification); what is left in this repository is the choice of the bytes that are digested, whose contract needs the content of parsed ASN.1 raw values. No contract within reach decides it; the input search for it (replay/validator/lib) is bounded and claimed for nothing.',
'C12':'The converter recurses over the input through bytes.Buffer and nested slices; the minimal length of each element needs a byte-exact content model of the buffer across the recursion, which the engine does not have yet. The crashes found on the way are repaired; the input search for it (replay/validator/lib) is bounded and claimed for nothing.',
'C14':'Most of the code that meets the hostile bytes is encoding/asn1, crypto/x509 and encoding/xml, driven by reflection and outside contracts; absence of panics in this repository alone would not decide the statement. The crashes found on the way are repaired; the address decoders are proved free of panics under C13; the input search is bounded and claimed for nothing.',
'C30':'The argument is about interleavings of goroutines and the memory model; the contracts here are sequential (no permission logic for Go is available offline).',
'C31':'Needs a model of the file system at every crash point; the contracts describe completed calls only.',
'C32':'A liveness statement over an unbounded loop and the network; partial-correctness contracts cannot express it.'}
m={'version':1,'setup_cmd':'bash /verif/setup.sh','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in claimed:
        m['checks'].append({'property':i,'quick_cmd':'bash /verif/check.sh %s quick'%i,'thorough_cmd':'bash /verif/check.sh %s thorough'%i,
          'technique':'contract-based deductive verification (SMT-discharged verification conditions from Go SSA)','level':'proof','level_note':claimed[i]})
    else:
        m['not_applicable'].append({'property':i,'reason':na.get(i,'not claimed yet')})
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
