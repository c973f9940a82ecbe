import json,subprocess
F=[("C01","9c5cd47","a doubled 0x7e flag was taken for a frame and swallowed the start of the next one"),
("C05","91b5536","a body of 1024 bytes or more silently overflowed the 10-bit length field into the flag bits"),
("C16","5787630","encoding swapped/lost the south and west bits"),
("C04","02f72b6","headers generated by the platform for 2019 devices lacked the protocol version byte (also C18, C23)"),
("C06","791baab","a 2011 registration was recorded as 2013"),
("C06","1af6545","IMEI/software version of 0x0102 were not kept to their fixed width"),
("C06","113e289","an empty media list could not be decoded/encoded"),
("C07","14a78c3","an unsupported parameter id made decoding panic"),
("C07","9ea2ab2","the emitted parameter count differed from the parameters emitted"),
("C07","125a470","raw byte parameters lost bytes through BCD conversion"),
("C19","88b244c","concurrent draws could return the same serial number at the wrap"),
("C27","d0bb2c1","text not convertible to GBK discarded the message bytes already written"),
("C18","c0825bb","the first fragment of a fragmented message panicked"),
("C18","6f62aee","the reassembled message kept the last fragment's length and fragmentation flag"),
("C18","f1b06cd","acknowledging a fragment on a removed session dereferenced nil"),
("C13","05dd00a","a keepalive check of a device already removed dereferenced nil"),
("C13","fb97544","a location report with ACC on did not count as contact (also C15)"),
("C17","b8744f3","Latest returned nothing when the writer had wrapped to slot 0 (also C15)"),
("C25","beff54c","listing devices and counting sessions read shared maps without the lock"),
("C09","fbf21ec","two concurrent registrations of one phone or plate could both succeed"),
("C12","3eb3b95","a message in flight resurrected a device that was removed meanwhile"),
("C20","fffa6a9","the accept loop spun forever after the listener was closed"),
("C08","abdd263","the server time query 0x0004 was never answered"),
("C23","d502491","parameter calls went on (and dereferenced nil) after answering with an error"),
("C23","2a2daee","the location call answered success with nothing when no location is known"),
("C20","cee048d","the end of an earlier connection removed the session of a newer connection from the same remote address"),
("C28","686bb4c","a truncated location report, authentication or parameter setting was completed from spare buffer space and acted on"),
("C29","82a8e6d","a fragmented message was processed when its last fragment arrived, although earlier ones were missing, repeated or of another message"),
("C29","fcf222d","a fragment refused before registration became part of a message completed after it"),
("C31","fe4cf80","the server acted on platform-only messages from a terminal: 0x8001 put a device online without authentication, 0x8103 stored parameters for any phone"),
("C30","5c6e783","a device registered anew after deregistering or failing authentication was shown with the last location of the earlier registration"),
("C18","95402b5","a merged authentication of 65536 bytes and more was cut to its length modulo 65536, so one starting with the issued code could pass"),
("C12","b84ea0a","a location report handled while its device was being removed left its location behind, and the next registration of the phone showed it"),
("C33","c6f50a7","log level FATAL selected DEBUG (misspelt name)"),
("C24","fc2cb1d","a parameter query to the simulated terminal panicked on parameter 0x76"),
]
full=lambda h: subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
out=[dict(property=p,status="fixed",commit=full(h),what=f"fixed: property={p} {h} {w}") for p,h,w in F]
json.dump(out,open("/verif/known_findings.json","w"),indent=1)
