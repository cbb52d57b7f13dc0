import json,subprocess
m={'bd29810':'C13','68320c3':'C13','67b49cb':'C09','0fa7c5b':'C08','4190728':'C01','ae30134':'C10','473e42f':'C10','3bc5a2d':'C10','c2ed36e':'C09','14a8bae':'C11','d817c58':'C11','c4eb97c':'C03','0c097aa':'C04','64b2110':'C04','d755cb1':'C14','1df7b59':'C13','d5d22d7':'C13','7308740':'C13','e2c6f40':'C13','200ef97':'C13','77132a6':'C13','8f6f4d3':'C05','dd3968d':'C14','9d1c8b7':'C15','6620ee2':'C14','5fd9891':'C16','693ea70':'C14','c41c62c':'C14','68f18b5':'C14','f0dee62':'C14','d49130e':'C14','405f292':'C14','c0b5c17':'C14','798e6e9':'C14','ad98d15':'C07','cebfd52':'C07','5e45279':'C07','6e54f6a':'C07','e65866e':'C07','b551deb':'C07','d1d0b68':'C07','695274d':'C07','8e0b48e':'C12','4744782':'C11','217fa0c':'C04','223e1d8':'C11','e849227':'C11','d6468c2':'C08','b7ac111':'C09','33ff048':'C12','66ab569':'C13','3edbdc0':'C13','3fcf987':'C13','18b7639':'C13','4fb2231':'C13','4a7e51b':'C14','794190c':'C16','e68b3a0':'C14','5411c4b':'C17','2d2f730':'C17','b8ca291':'C17','b2acd04':'C17','aa8259c':'C17','63ae6c6':'C17','5cc7d24':'C13','17ac88d':'C17','30aa37f':'C19','eebfc4e':'C19','8684e7e':'C19','013ad82':'C18','a36d11f':'C18','eab7b3a':'C18','ea81c0b':'C18','3b354b8':'C18','539c507':'C18','67f4276':'C18','717fec0':'C18','b243647':'C18','14a7d63':'C18','6aa29e0':'C18','4ac7d2c':'C18','8f01a13':'C18','d6e02b2':'C18','7de10e7':'C18','70c367b':'C18','85c0c3f':'C20','f5f8401':'C20','5808ce4':'C20','54887cd':'C20','591cedd':'C20','fb23396':'C20','9399fe4':'C20','4554f19':'C21','119528f':'C21','6ec515a':'C21','1eaa53f':'C21','1b1a81f':'C21','c5aab13':'C21','e997dd4':'C21','483ed9b':'C21','1e748b1':'C21','eec5a05':'C21','30aba92':'C21','6beb8f5':'C21','215d9c7':'C22','ef5a198':'C22','c6d29c2':'C22','a5034ff':'C22','55f4555':'C22','1fd93e4':'C22','08ddbc9':'C22','60804eb':'C23','3c3791a':'C23','f258962':'C23','483c38b':'C23','52daaa7':'C23','799569b':'C23','e03ca9d':'C23','909a807':'C14','a991e59':'C14','8a97a5e':'C21'}
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','96fdb0f..HEAD'],text=True).splitlines():
    h,s=l.split(' ',1)
    out.append('fixed: property=%s %s %s'%(m[h],h,s.removeprefix('fix: ')))
json.dump({'findings':[],'fixed':out},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
