import subprocess,json
P={"29092ae":"C02","aeb0465":"C02","8b10a25":"C06","e75924d":"C02","48ea687":"C01","b4c3d36":"C01","dd08b66":"C21","e83f32a":"C19","9efa8cc":"C18","f930eb6":"C18","2a71237":"C18","e28727a":"C17","f862981":"C17","c7c076b":"C15","6cb7598":"C15","0a49931":"C16","ba1f0b7":"C14","1edcf39":"C14","5fb99dd":"C01","f982147":"C02","5014068":"C08","37c123a":"C06","8f8f84c":"C08","bae4935":"C07","493208a":"C07","d8c920f":"C06","a703d08":"C04","bf71781":"C04","a2af0e7":"C06","fa7ad92":"C21","e1ec11e":"C18","359b072":"C18","bed9cc5":"C19","290c547":"C06","3e6c833":"C12","2f606c5":"C01","e7e0211":"C01","0b27978":"C01","3aa104d":"C10","32666b1":"C03","fa1176f":"C03","f5bf0eb":"C05","d0a4b26":"C03","4fb74c4":"C02","cb7a9f1":"C02","c52ff06":"C01","8e8de82":"C02","81157d5":"C02","891a843":"C09","54a4e01":"C02","58780de":"C02","530b1cd":"C02","5713791":"C01","642cded":"C02","8d599fa":"C03","1b75a46":"C10"}
out=[]
for l in subprocess.check_output("git -C /repo log --reverse --format='%h %s' | grep ' fix:'",shell=True,text=True).splitlines():
    h,s=l.split(' fix: ',1)
    out.append([P.get(h,"C01"),h,s])
json.dump(out,open('/verif/tools/fixed.json','w'),indent=0)
