import re,sys
t=open('/tmp/xval.out').read()
items=re.findall(r'<<\s*"BAD",(.*?)(?=\n<<\s*"BAD"|\nFinished|\nModel checking)',t,re.S)
items=[re.sub(r'\s+',' ',x) for x in items]
items.sort(key=len)
for x in items[:int(sys.argv[1])]: print(x[:1500]); print()
