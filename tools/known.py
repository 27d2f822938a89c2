#!/usr/bin/env python3
# Source of /verif/known_findings.json (run: python3 tools/known.py > known_findings.json)
import json,subprocess
F=[
("C04","blend-channels","fix: blend each colour","red, green and blue of the top were blended with the wrong channel of the bottom and rounded the wrong way"),
("C04","burn-wrap","fix: burn mode","Burn of a black top channel wrapped to white"),
("C04","grain-merge","fix: grain merge","Grain Merge added half instead of subtracting it"),
("C04","hard-light","fix: hard light","Hard Light wrapped from black to white at the middle of the range"),
("C06","dissolve-alpha","fix: dissolve","Dissolve drew against the bottom's alpha"),
("C05","hsl-alpha","fix: hue, saturation","Hue, Saturation, Color, Value and Luminosity ignored a transparent top's alpha"),
("C07","hsl-rgb","fix: converting HSL","HSL to RGB used wrong coefficients"),
("C12","paletted-opaque","fix: a paletted image","PalettedAlpha.Opaque was true if any pixel was not opaque"),
("C12","gray-sub-opaque","fix: the opacity of a gray","GrayAlpha.Opaque of a sub-image looked at other pixels"),
("C08","gray-model","fix: converting to GrayAlpha","GrayAlphaModel took premultiplied luminance, darkening translucent colours"),
("C09","alpha-palette","fix: translucent colours","AlphaPalette matched premultiplied colours, mapping translucent colours to dark entries"),
("C14","crop-moves","fix: cropping a layer","SubImage of a layer shifted its pixels"),
("C16","reader-at","fix: random access","GetReaderAt kept its lock after a failed seek, accepted short reads silently and depended on the stream position"),
("C17","ora-opacity-attr","fix: the opacity of an ORA","the opacity was written as a second visibility attribute"),
("C17","ora-opacity-round","fix: decoding an ORA opacity","opacities were truncated when decoded"),
("C17","ora-negative","fix: negative layer","negative layer offsets were not written"),
("C30","ora-close","fix: a failure to complete","errors of closing the zip archive were dropped"),
("C17","ora-plain","fix: an ORA file of a plain","a plain image was written without a root stack and could not be decoded"),
("C17","ora-layer-pixels","fix: an ORA layer must be written","layers whose image does not start at the origin or is larger than the layer were written with other pixels or sizes"),
("C17","ora-groups","fix: ORA layers keep","layers in moved groups were clipped in the wrong place, and layers cut by the canvas moved"),
("C19","ora-negative-canvas","fix: an ORA canvas of negative","a canvas of negative size was accepted"),
("C20","ora-thumbnail","fix: the ORA thumbnail","the thumbnail showed only part of the picture"),
]
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().split('\n')
out=[]
for prop,i,key,what in F:
    c=[l.split(' ',1)[0] for l in log if l.split(' ',1)[-1].startswith(key)]
    assert len(c)==1,(key,c)
    out.append(dict(property=prop,id=i,status='fixed',commit=c[0],what='fixed: property=%s %s %s'%(prop,c[0],what)))
print(json.dumps(out,indent=1))
