From 8ae1d5fa9c83b887475c74fab208bd0fbe12ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 01/49] fix: keep the basis of component names in standard
 order and free of invalid names

---
 .../optical_values_component_names.py         | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 2f18f81..506b7ac 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -210,6 +210,9 @@ class ComponentNames():
         self.string_format_in_state_as_word = "{:0"+str(self.digits_per_channel)+ "d}"
         self.tuple_of_strings = tuple(self.string_format_in_state_as_word.format(number) for number in range(self.length_of_fock_state))
         self.size_of_basis = self.length_of_fock_state**self.no_of_optical_channels
+        # the dictionaries are filled on demand, in the order in which names are looked up. This flag indicates
+        # that they contain the complete basis in the standard order.
+        self.basis_in_standard_order = False
         return
 
     def __getitem__(self,component_name: str) -> list:
@@ -220,17 +223,27 @@ class ComponentNames():
             component_name_as_integer_tuple = tuple( int(component_name[a:a+self.digits_per_channel]) for a in range(0,len(component_name),self.digits_per_channel))
             if not self.channel_0_left_in_state_name:
                 component_name_as_integer_tuple = tuple(reversed(component_name_as_integer_tuple))
-            self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
-            self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
+            # only store valid names, otherwise invalid names would become part of the basis
+            if self._is_valid_name(component_name, component_name_as_integer_tuple):
+                self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
+                self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
             return list(component_name_as_integer_tuple)
+
+    def _is_valid_name(self, component_name: str, values: tuple) -> bool:
+        """ True if the values are a valid set of optical values and the component_name is the name for these values."""
+        if len(values) != self.no_of_optical_channels or min(values) < 0 or max(values) >= self.length_of_fock_state:
+            return False
+        if not self.channel_0_left_in_state_name:
+            values = reversed(values)
+        return component_name == ''.join([self.tuple_of_strings[number] for number in values])
         
     def _values_from_index(self, index: int) -> list:
         return [(index//(self.length_of_fock_state**c))%self.length_of_fock_state for c in range(self.no_of_optical_channels)]
         
     def __iter__(self):
         """ Iterator for optical component names as a string"""
-        if len(self.dict_of_valid_component_names) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
+        if self.basis_in_standard_order:
+            return iter(self.dict_of_valid_component_names)
 
         self.list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
         if self.channel_0_left_in_state_name == True:
@@ -238,12 +251,16 @@ class ComponentNames():
         else: #self.state_least_significant_digit_left == False:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):optical_state for optical_state in self.list_of_fock_states}       
 
+        self.basis_in_standard_order = True
         return iter(self.dict_of_valid_component_names)
     
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
-        values = self.__getitem__(key)
-        return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
+        try:
+            values = self.__getitem__(key)
+        except ValueError: # the key contains characters which are not digits
+            return False
+        return self._is_valid_name(key, values)
     
     def __len__(self) -> int:
         """ Total number of possible states as number_of_possible_optical_values ^ number_of_optical_channels."""
@@ -393,6 +410,8 @@ class OpticalValues():
         self.string_format_in_state_as_word = component_names.string_format_in_state_as_word
         self.tuple_of_strings = component_names.tuple_of_strings
         self.size_of_basis = component_names.size_of_basis
+        # see class ComponentNames: True if the dictionary contains the complete basis in the standard order.
+        self.basis_in_standard_order = False
         return
     
     def __getitem__(self,optical_values: Union[list, tuple]) -> str:
@@ -404,14 +423,17 @@ class OpticalValues():
                 component_name = ''.join([self.tuple_of_strings[number] for number in optical_values])                                                                 
             else:
                 component_name = ''.join([self.tuple_of_strings[number] for number in reversed(optical_values)])   
-            self.dict_of_optical_values.update({optical_values: component_name})
-            self.dict_of_valid_component_names.update({component_name: optical_values})
+            # only store valid values, otherwise invalid values would become part of the basis
+            if optical_values in self:
+                self.dict_of_optical_values.update({optical_values: component_name})
+                self.dict_of_valid_component_names.update({component_name: optical_values})
             return component_name
     
     def __iter__(self):
-        if len(self.dict_of_optical_values) == self.size_of_basis:
+        if self.basis_in_standard_order:
             return iter(self.dict_of_optical_values)
         self.dict_of_optical_values = {tuple(v):k for k,v in self.component_names.items()}      
+        self.basis_in_standard_order = True
         return iter(self.dict_of_optical_values)
     
     def __len__(self) -> int:
-- 
2.43.0


From 699ab3cb9009eb0b5da3acf2fe83ae7ce8ee7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 02/49] fix: apply two channel gates to the given channels when
 the second channel is channel 0

---
 src/fock_state_circuit/nodes/nodelist/node_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index aa59fdb..60f1308 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -204,7 +204,9 @@ class NodeList():
                 tensor_list[0], tensor_list[1] = tensor_list[1], tensor_list[0] #swap
             else:
                 tensor_list[0], tensor_list[channel_horizontal] = tensor_list[channel_horizontal],  tensor_list[0]
-                tensor_list[1], tensor_list[channel_vertical] = tensor_list[channel_vertical],  tensor_list[1]  
+                # channel_vertical can have moved in the first swap
+                index_vertical = tensor_list.index(channel_vertical)
+                tensor_list[1], tensor_list[index_vertical] = tensor_list[index_vertical],  tensor_list[1]  
         
         else:
             raise Exception('error creating tensor list, more than two channels provided')
-- 
2.43.0


From e15000c09f412fd670f0568d69a866071d77ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 03/49] fix: evaluate all selected nodes when the selection is
 not in increasing order

---
 src/fock_state_circuit/circuit.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3126ba1..6510236 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -328,16 +328,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     break
                 else:
                     optical_nodes_list.append(node_index)
-            if max(optical_nodes_list) >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
+            remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
         else:
-            current_node_index = nodes_to_be_evaluated[0]
-            if current_node_index >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[1:]
+            remaining_nodes = nodes_to_be_evaluated[1:]
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From 142117d81e2ed4214060cec532229e4aa5c06bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 04/49] fix: classical nodes no longer change the collection
 passed to evaluate_circuit

---
 src/fock_state_circuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 6510236..dc69b8e 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -376,7 +376,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         #**********************************************
         # case where next node is of type 'classical' *
         #**********************************************
-        elif self.node_list[current_node_index].get('node_type') == 'classical':          
+        elif self.node_list[current_node_index].get('node_type') == 'classical':
+            # the values are set on a copy, to leave the input collection unchanged
+            collection_of_states_input = collection_of_states_input.copy()
             for state in collection_of_states_input:
                 # read the function from the node_list
                 classical_function = self.node_list[current_node_index].get('function')
-- 
2.43.0


From 899d10de31f62ee6c4190f94d45b47af48117019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 05/49] fix: measurement history does not share lists with the
 classical channels or with copies of the state

---
 src/fock_state_circuit/circuit.py | 4 ++--
 src/fock_state_circuit/state.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index dc69b8e..62a01a5 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -677,9 +677,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 new_state.classical_channel_values[n] = outcome[i]
             # 3. the new state's measurement results need to be updated with 
             try:
-                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values, 'probability': tot_prob})   
+                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob})   
             except:
-                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values, 'probability': tot_prob}]
+                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob}]
             new_state.optical_components = {self._dict_of_optical_values[tuple(name[0])]:{'amplitude':new_amplitude,'probability': new_probability} for name, new_amplitude, new_probability in zip(list_of_outcomes,new_amps, new_probs)}
             # 4. Other aspects like initial_state and auxiliary_information remain unchanged
             # add the new state to the collection
diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9afb1d9..a66ba1f 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -429,7 +429,7 @@ class State():
                             'cumulative_probability' : self.state['cumulative_probability'],
                             'optical_components' : { name:amp_prob.copy() for name, amp_prob in self.state['optical_components'].items() }, 
                             'classical_channel_values' : self.state['classical_channel_values'].copy(),
-                            'measurement_results' : [{k:v for k,v in m_result.items()} for m_result in self.state['measurement_results']]
+                            'measurement_results' : copy.deepcopy(self.state['measurement_results'])
                             }
         auxiliary_information = self.state.get('auxiliary_information', None)
 
-- 
2.43.0


From 1a70760fc5b3f84fc08ae97e95f2fb54b6ff4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 06/49] fix: keep all states in
 set_collection_as_statistical_mixture

---
 src/fock_state_circuit/collection_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4e52b8f..069b4e8 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -459,9 +459,9 @@ class CollectionOfStates(Plot):
             initial_state += alphabet[random.randint(0,len(alphabet)-1)]
 
         for state, weight in list_of_tuples_state_weight:
-            # make random identifier which is not yet used in self._collection_of_states.keys()
+            # make random identifier which is not yet used in the mixture
             identifier = 'identifier_' + alphabet[random.randint(0,len(alphabet)-1)]
-            while identifier in self._collection_of_states.keys():
+            while identifier in mixture.keys():
                 identifier += alphabet[random.randint(0,len(alphabet)-1)]
 
             # for initial state use initial state name in first state and copy to all in the mixture
-- 
2.43.0


From ffeb7c51e616244aca985d9925c04f334507fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 07/49] fix: density_matrix takes the trace of the square
 without forming the matrix product

test_density_matrix1 needed minutes and could run into its time limit
---
 src/fock_state_circuit/collection_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 069b4e8..d4163e1 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -729,7 +729,7 @@ class CollectionOfStates(Plot):
                     dm_mixed_state += state.cumulative_probability * dm_single_state
 
             trace_dm = np.round(np.abs(np.trace(dm_mixed_state)),decimals=decimal_places_for_trace)
-            trace_dm_squared = np.round(np.abs(np.trace(np.matmul(dm_mixed_state,dm_mixed_state))),decimals=decimal_places_for_trace)
+            trace_dm_squared = np.round(np.abs(np.einsum('ij,ji->',dm_mixed_state,dm_mixed_state)),decimals=decimal_places_for_trace)
             dictionary_with_return_values.update({initial_state : {'density_matrix' : dm_mixed_state, 'trace' : trace_dm, 'trace_dm_squared' : trace_dm_squared}})
 
         return dictionary_with_return_values
-- 
2.43.0


From 3db3824df75930f2ad304a1a50b370aca524d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 08/49] fix: generic mixing and non polarizing beamsplitter use
 the requested reflection and transmission

The mixing angle was twice too large: R=0.5 moved all light to the other channel, R=0 and R=1 both
were the identity. The result for R=0.25 is unchanged (probability R to stay in the channel).
Sums that differ from 1 by rounding only (sin**2+cos**2) are accepted.
---
 src/fock_state_circuit/nodes/optical_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 59dc40b..70f1edb 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -658,11 +658,12 @@ class OpticalNodes(NodeList):
                     'markersize' : 20,
                     'fillstyle' : 'full'
                 }|node_info
-        if reflection + transmission != 1:
+        if not math.isclose(reflection + transmission, 1, abs_tol = 1e-9) or min(reflection, transmission) < 0:
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-        theta = math.atan2(math.sqrt(reflection),math.sqrt(transmission))
+        # the angle is half the mixing angle, probability to stay in the channel is cos(2*theta)**2 = reflection
+        theta = math.atan2(math.sqrt(transmission),math.sqrt(reflection))/2
         self.__apply_generic_rotation_2_channels(first_channel, second_channel, theta = theta, phi = math.pi, node_info = node_info)
         return
     
-- 
2.43.0


From fe9b31919a06f20693fd3ad17a190c9cec3043ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 09/49] fix: apply non-symmetric optical matrices as given
 instead of transposed

The fock matrix is multiplied with the vector of input amplitudes, so the output index has to be the
row. All named gates are symmetric, for a custom_optical_node the transposed matrix was applied.
---
 src/fock_state_circuit/circuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 62a01a5..9da255c 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -870,7 +870,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         tad = matrix[1][0]  
         length = self._length_of_fock_state
         fock_matrix = np.zeros((length**2, length**2), dtype = np.csingle) # the matrix is pre-filled as zero matrix
-        for l1 in range(0,length**2): #l1 is the vertical index in fock_matrix
+        for l1 in range(0,length**2): #l1 is the horizontal index in fock_matrix (the input)
             # n and m are the input photon numbers in the two channels
             n = int(l1%length)
             m = int((l1-n)/length)
@@ -890,15 +890,15 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     coeff = coeff * math.sqrt(math.factorial(u)*math.factorial(v)/(math.factorial(n)*math.factorial(m)))
                     #total number of photons cannot exceed (length-1) for each of the output channels
                     if ((u < length) and (v < length)):
-                        l2 = v * length + u #l2 is the horizontal index in fock_matrix
-                        fock_matrix[l1][l2] = fock_matrix[l1][l2] + coeff
+                        l2 = v * length + u #l2 is the vertical index in fock_matrix (the output)
+                        fock_matrix[l2][l1] = fock_matrix[l2][l1] + coeff
                         # if make_unitary is set to True we have to set all coefficients for output states with 
                         if make_unitary:
                             if n + m >= length or u + v >= length:
                                 if (n == u) and (m == v):
-                                    fock_matrix[l1][l2] = 1.0
+                                    fock_matrix[l2][l1] = 1.0
                                 else:
-                                    fock_matrix[l1][l2] = 0.0
+                                    fock_matrix[l2][l1] = 0.0
             
         if tensor_list is None:
             return (fock_matrix, [])
-- 
2.43.0


From 098f73172639f226167582b354d3ae9ca274edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 10/49] fix: c_shift and channel_coupling apply the
 control/target pairs in the given order

The matrices were multiplied in reversed order, so with channels that are target in one pair and control
in the next the result differed from c_shift_direct.
---
 src/fock_state_circuit/nodes/custom_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index f97fafb..38dad72 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -440,7 +440,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
@@ -526,7 +526,7 @@ class CustomNodes(NodeList):
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.sqrt(np.cdouble((1-coupling_strength))*(1 + 0*1j))
                     else:
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.cdouble(0)
-            coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combintation)
+            coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combintation, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
-- 
2.43.0


From da5d82259ea2907ac5b55dd38fe7bc30958e8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 11/49] fix: shift, c_shift and channel_coupling raise on
 channels that are not in the circuit

The exception was created but not raised and the check accepted a channel number one too large.
---
 src/fock_state_circuit/nodes/custom_nodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 38dad72..fe2375b 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -189,12 +189,12 @@ class CustomNodes(NodeList):
         error = False
         if len(shift_per_channel) == len(target_channels):
             for shift, target in zip(shift_per_channel, target_channels):
-                if min(shift, target) < 0 or target > self._no_of_optical_channels:
+                if target < 0 or target >= self._no_of_optical_channels:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.shift')
+            raise Exception('Error in channel input for function FockStateCircuit.shift')
 
         this_is_first_round = True  
         # for each channel create a transition matrix
@@ -412,14 +412,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.c_shift')
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift')
             
         
         this_is_first_round = True  
@@ -491,14 +491,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.channel_coupling')
+            raise Exception('Error in channel input for function FockStateCircuit.channel_coupling')
             
         
         # the coupling matrix is pre-filled as identity matrix
-- 
2.43.0


From 39657572cd567edd43f03e95ec165347760657aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 12/49] fix: outcomes and correlations in plots for collections
 with reversed channel order

plot_correlations compared the wrong channels, and with two digits per channel the digits in the
outcome names were reversed.
---
 src/fock_state_circuit/visualization/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index ea63572..afafd2a 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -195,10 +195,10 @@ class Plot():
             str: name of the state of component derived from photon number per channel. e.g., '013'
         """        
         string_format_in_state_as_word = "{:0"+str(len(str(self._length_of_fock_state-1)))+ "d}"
-        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
+        words = [string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state]
         if self._channel_0_left_in_state_name == False:
-            name = name[::-1]
-        return name
+            words.reverse()
+        return ''.join(words)
     
     def _create_list_of_values_from_name(self, name: str) -> list:
         """ Create a list of values from a name string. The input name has to be a 'string of positive integers', where each integer takes
@@ -211,6 +211,8 @@ class Plot():
             end = start + len(str(self._length_of_fock_state-1))
             values.append(int(name[start:end]))
             start = end
+        if self._channel_0_left_in_state_name == False:
+            values.reverse()
         return values
     
 
-- 
2.43.0


From fa33e0cd00c7635f93a833aeaec5d81cf48f4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 13/49] fix: print circuits that have no name

---
 src/fock_state_circuit/circuit.py          | 2 +-
 src/fock_state_circuit/compound_circuit.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 9da255c..4420b8e 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -264,7 +264,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         Returns:
             str: string describing the circuit
         """ 
-        text = 'FockStateCircuit name: ' + self._circuit_name + '\n'
+        text = 'FockStateCircuit name: ' + str(self._circuit_name) + '\n'
         text += 'Optical Channels: ' + str(self._no_of_optical_channels) + '\n'
         text += 'Classical Channels: ' + str(self._no_of_classical_channels) + '\n'
         text += 'Length of Fock state: ' + str(self._length_of_fock_state) + '\n'
diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 843ce50..365e080 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -67,7 +67,7 @@ class CompoundFockStateCircuit:
 
     def __str__(self) -> str:
         text = "Compound FockStateCircuit: "
-        text += self.compound_circuit_name + '\n'
+        text += str(self.compound_circuit_name) + '\n'
         for index,circuit in enumerate(self.list_of_circuits):
             text += str(index) + "." + '\n'
             text += str(circuit)
-- 
2.43.0


From 8843853daf99211db3fe7d32a6f04f72913a3d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 14/49] fix: reduce also changes the channels of an empty
 collection and skips components with amplitude zero

---
 src/fock_state_circuit/collection_of_states.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index d4163e1..b61aecf 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -814,6 +814,8 @@ class CollectionOfStates(Plot):
                 cumulative_probability = 0
                 for amplitude_probability in new_optical_components.values():
                     cumulative_probability += np.abs(amplitude_probability['amplitude'])**2
+                if cumulative_probability == 0:
+                    continue
                 scale_factor = math.sqrt((1/cumulative_probability))
                 for component in new_optical_components.keys():
                     new_amplitude = new_optical_components[component]['amplitude'] * scale_factor
@@ -830,14 +832,13 @@ class CollectionOfStates(Plot):
                 new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
 
-
-            #self = new_collection_of_states.copy()
-            self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-            self._collection_of_states = new_collection_of_states.collection_as_dict()
-            self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
-            self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
-            self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
-            self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
+        #self = new_collection_of_states.copy()
+        self._fock_state_circuit = new_collection_of_states._fock_state_circuit
+        self._collection_of_states = new_collection_of_states.collection_as_dict()
+        self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
+        self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
+        self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
+        self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
 
         return 
     
-- 
2.43.0


From e1f4c920f9227b281ddbd4aa2aa06befbba30e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 15/49] fix: extend, reduce and adjust_length_of_fock_state
 keep the threshold

The threshold was lost at the next copy of the collection.
---
 src/fock_state_circuit/collection_of_states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index b61aecf..ec5c7c3 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -777,7 +777,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = self._length_of_fock_state, 
                                 no_of_optical_channels = len(optical_channels_to_keep), 
                                 no_of_classical_channels= len(classical_channels_to_keep),
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         
         new_collection_of_states = CollectionOfStates(fock_state_circuit=updated_circuit)
@@ -867,7 +868,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = new_length_of_fock_state, 
                                 no_of_optical_channels = self._no_of_optical_channels, 
                                 no_of_classical_channels= self._no_of_classical_channels,
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -1007,7 +1009,8 @@ class CollectionOfStates(Plot):
         updated_circuit  = NodeList(length_of_fock_state = self._length_of_fock_state, 
                         no_of_optical_channels = self._no_of_optical_channels+extra_optical_channels,
                         no_of_classical_channels= self._no_of_classical_channels+extra_classical_channels,
-                        channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                        channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                        threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                         )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
-- 
2.43.0


From ba586a32b01a8424ed70a79db60ad5813a0ed2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 16/49] fix: states created by extend and reduce do not share
 data

---
 src/fock_state_circuit/collection_of_states.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index ec5c7c3..d26bb63 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -1,4 +1,5 @@
 import random
+import copy
 import string
 import math
 import numpy as np
@@ -827,8 +828,8 @@ class CollectionOfStates(Plot):
                     'cumulative_probability' :  old_state['cumulative_probability'] *cumulative_probability,
                     'optical_components' : new_optical_components, 
                     'classical_channel_values' : new_classical_values,
-                    'measurement_results' : old_state['measurement_results'],
-                    'auxiliary_information' : old_state['auxiliary_information']
+                    'measurement_results' : copy.deepcopy(old_state['measurement_results']),
+                    'auxiliary_information' : copy.deepcopy(old_state['auxiliary_information'])
                     }
                 new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
@@ -1043,14 +1044,14 @@ class CollectionOfStates(Plot):
    
                     new_component_name = new_component_name_from_list(new_list)
        
-                    new_optical_components.update({new_component_name:amplitude_probability})
+                    new_optical_components.update({new_component_name:amplitude_probability.copy()})
 
                 new_state_as_a_dict = {   'initial_state' : old_state['initial_state'],
                     'cumulative_probability' :  old_state['cumulative_probability']*probability,
                     'optical_components' : new_optical_components, 
                     'classical_channel_values' : old_state['classical_channel_values'] + [0]*extra_classical_channels,
-                    'measurement_results' : old_state['measurement_results'],
-                    'auxiliary_information' : old_state['auxiliary_information']
+                    'measurement_results' : copy.deepcopy(old_state['measurement_results']),
+                    'auxiliary_information' : copy.deepcopy(old_state['auxiliary_information'])
                     }
                 if new_state_as_a_dict['cumulative_probability'] >= self._threshold_probability_for_setting_to_zero:
                     new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
-- 
2.43.0


From 9a90f0ed3c82c3eb63ee69042deebd54dc2bb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 17/49] fix: a copy of a collection keeps
 print_only_last_measurement

---
 src/fock_state_circuit/collection_of_states.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index d26bb63..44553aa 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -604,7 +604,9 @@ class CollectionOfStates(Plot):
             CollectionOfStates: new collection of states with identical values and parameters as the original
         """        
         if empty_template:
-            return CollectionOfStates(self._fock_state_circuit, dict([]))
+            new_collection_of_states = CollectionOfStates(self._fock_state_circuit, dict([]))
+            new_collection_of_states.print_only_last_measurement = self.print_only_last_measurement
+            return new_collection_of_states
         else:
             new_selection_of_states = dict([])
             for identifier,state in self._collection_of_states.items():
@@ -612,7 +614,9 @@ class CollectionOfStates(Plot):
                 new_state = state.copy()
                 new_selection_of_states.update({new_state_identifier : new_state})
 
-            return CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+            new_collection_of_states = CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+            new_collection_of_states.print_only_last_measurement = self.print_only_last_measurement
+            return new_collection_of_states
               
     
     def generate_allowed_components_names_as_list_of_strings(self) -> list:
-- 
2.43.0


From 884029e44ebbb6a2774711ac0df38c0fc7d19f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 18/49] fix: print_only_last_measurement of a collection
 applies to the states that are printed

---
 src/fock_state_circuit/collection_of_states.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 44553aa..d95f3f6 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -347,6 +347,7 @@ class CollectionOfStates(Plot):
         text += 'Number of states in collection: {}\n'.format(len(self._collection_of_states))
         for name,state in self._collection_of_states.items():
             text += 'Identifier: {!r}\n'.format(name)
+            state._print_only_last_measurement = self.print_only_last_measurement
             text += str(state)
         return text
     
-- 
2.43.0


From 8b8fd4c1b73a37720c912c4edf8618e4720da9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 19/49] fix: clean_up removes optical components with low
 probability

They were only set to zero when the other components did not need to be rescaled, and a state with
only low components gave a division by zero.
---
 src/fock_state_circuit/state.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index a66ba1f..dce9238 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -570,16 +570,16 @@ class State():
         """ Rescales optical components by removing the ones with (too) low probability and re-normalizing the remaining ones.
             The limit is set by 'threshold_probability_for_setting_to_zero'
         """  
-        oc = self.state['optical_components']
+        # remove the components with (too) low probability
+        oc = dict([])
         total_probability = 0
-        for component, amplitude_probability in oc.items():
-            if amplitude_probability['probability'] < self._threshold_probability_for_setting_to_zero:
-                amplitude_probability['probability'] = 0
-                amplitude_probability['amplitude'] = np.csingle(0)
-            else:
+        for component, amplitude_probability in self.state['optical_components'].items():
+            if amplitude_probability['probability'] >= self._threshold_probability_for_setting_to_zero:
+                oc.update({component : amplitude_probability})
                 total_probability += np.abs(amplitude_probability['amplitude'])**2
+        self.state['optical_components'] = oc
 
-        if np.abs(total_probability - 1.0) >= self._threshold_probability_for_setting_to_zero:
+        if total_probability > 0 and np.abs(total_probability - 1.0) >= self._threshold_probability_for_setting_to_zero:
             scale_factor = 1/math.sqrt(total_probability)
             new_oc = dict([])
             for component, amplitude_probability in oc.items():
-- 
2.43.0


From 132fa49f20940de2cf47f13024afa38da52f804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 20/49] fix: evaluating a circuit without nodes and without
 input returns the basis states

---
 src/fock_state_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 4420b8e..fb26d4d 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -304,6 +304,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if nodes_to_be_evaluated == ['all']:
             nodes_to_be_evaluated = list(range(len(self.node_list)))
             if len(self.node_list) == 0: # case for empty circuit
+                if collection_of_states_input is None:
+                    collection_of_states_input = CollectionOfStates(self)
                 return collection_of_states_input
         # if nodes_to_be_evaluated is empty return the input state. This was last recursion loop
         elif len(nodes_to_be_evaluated) == 0:
-- 
2.43.0


From 2629a48625034eaddb95d8ad10e203ce9747bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 21/49] fix: evaluating optical nodes leaves the circuit of the
 input collection unchanged

---
 src/fock_state_circuit/circuit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index fb26d4d..6728aee 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -714,8 +714,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if collection_of_states is None:
             collection_of_states = CollectionOfStates(fock_state_circuit=self)
         else:
-            collection_of_states._fock_state_circuit = self
-            collection_of_states = collection_of_states.copy()
+            collection_of_states = CollectionOfStates(self, {identifier : state.copy() for identifier, state in collection_of_states.items()})
         if self._use_full_fock_matrix == True:
             # if 'use_full_fock_matrix' is set to 'True' we always use the complete matrix. There is no need to group
             # states by photon number.
-- 
2.43.0


From 16ebeb18d778e49113cf5b03cf4a26be22215f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 22/49] fix: generic functions and special measurements work on
 a copy of the collection

evaluate_circuit changed the collection that was passed to it (time delays, pulse width, photon resolved
measurement, Popescu-Rohrlich gates and functions given by the user as in the documented examples).
---
 src/fock_state_circuit/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 6728aee..627149a 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -408,7 +408,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
 
                 # perform the measurement
                 # the function perform_measurement_photon_resolved is part of the module 'spectral_nodes.py'
-                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input.copy(), 
                                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                                     classical_channels_to_write_to=classical_channels_to_be_written,
                                                                                     list_of_projections = list_of_projections)
@@ -419,7 +419,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 optical_channels_to_be_read = self.node_list[current_node_index].get('optical_channels_to_be_read')
                 classical_channels_to_be_written = self.node_list[current_node_index].get('classical_channels_to_be_written')  
                 # The function perform_measurement_pr_correlation is part of the module superquantum_nodes.py
-                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input.copy(), 
                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                     classical_channels_to_write_to=classical_channels_to_be_written)
                 return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
@@ -517,7 +517,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             generic_function = self.node_list[current_node_index].get('generic_function')
             generic_function_parameters = self.node_list[current_node_index].get('generic_function_parameters')
             
-            collection_of_states_output = generic_function(collection_of_states_input,generic_function_parameters)
+            # the function may modify the collection it receives, so call it with a copy
+            collection_of_states_output = generic_function(collection_of_states_input.copy(),generic_function_parameters)
          
             return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
 
-- 
2.43.0


From 16c09898dfed505a7ebfd441e27e6cbe533c1e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 23/49] fix: pulse width can be set for all channels before
 other photon resolved operations

set_pulse_width for all channels adds pulse widths without assigning interference groups. A time delay
or measurement after that raised a KeyError.
---
 .../collection_of_state_columns.py                            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 067dff0..30d51b1 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -95,8 +95,8 @@ class CollectionOfStateColumns():
             # in the dict 'collection by column'. If they do not have this information we create a new interference group, with a single 
             # column for every state in the collection.
  
-            # check if state has 'photon_resolution' information
-            if 'photon_resolution' in state.auxiliary_information.keys():
+            # check if state has 'photon_resolution' information with an interference group
+            if 'interference_group_identifier' in state.auxiliary_information.get('photon_resolution', dict([])).keys():
                 interference_group_id = state.auxiliary_information['photon_resolution']['interference_group_identifier']
                 if interference_group_id not in self.collection_by_column[initial_state].keys():
                     # create a new interference group with a new column for this state
-- 
2.43.0


From 470f4c91ca1ec3346e2649fd1140c55d386fe017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 24/49] fix: time_delay_full accepts a single channel number,
 like time_delay

---
 .../temporal_functions.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
index c6ddfee..d1ed511 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
@@ -131,7 +131,7 @@ def add_time_delay_generic(collection_of_states: CollectionOfStates, info: dict,
         optical_component = list(state.optical_components.keys())[0]
         values = state._dict_of_valid_component_names[optical_component]
         delay_this_state = False
-        for channel in info['channels_to_be_delayed']:
+        for channel in channel_numbers:
             if (values[channel] != 0):
                 delay_this_state = True
                 break
-- 
2.43.0


From 2580ac810c5f3d373d329a761e4b668b6cc99173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 25/49] fix: phase shift of a channel does not depend on
 photons in other channels

---
 src/fock_state_circuit/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 627149a..570cdb8 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -870,6 +870,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         rbd = matrix[1][1]
         tbc = matrix[0][1]   
         tad = matrix[1][0]  
+        # if the channels are only phase shifted the number of photons per channel cannot exceed the maximum
+        if np.allclose([tbc, tad], 0):
+            make_unitary = False
         length = self._length_of_fock_state
         fock_matrix = np.zeros((length**2, length**2), dtype = np.csingle) # the matrix is pre-filled as zero matrix
         for l1 in range(0,length**2): #l1 is the horizontal index in fock_matrix (the input)
-- 
2.43.0


From 540fa7a9b13305859eb087234dbde5dc53133ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 26/49] fix: rounding errors do not make a state or a
 probability invalid

---
 src/fock_state_circuit/state.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index dce9238..9b77366 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -191,10 +191,11 @@ class State():
        
     @cumulative_probability.setter
     def cumulative_probability(self, probability: float):
-        if not 0 <= probability <= 1:
+        # allow for rounding errors
+        if not -1e-6 <= probability <= 1 + 1e-6:
             print(probability)
             raise Exception('Invalid value for probability')
-        self.state['cumulative_probability'] = probability  
+        self.state['cumulative_probability'] = min(max(probability, 0), 1)
 
     @property
     def optical_components(self):
@@ -397,7 +398,9 @@ class State():
             float(cumulative_probability)
         except:
             return (False,'Invalid state: invalid type for cumulative probability')
-        if cumulative_probability < -self._threshold_probability_for_setting_to_zero or cumulative_probability -1 > self._threshold_probability_for_setting_to_zero:
+        # the matrices are calculated in single precision, so allow for rounding errors also if the threshold is small
+        tolerance = max(self._threshold_probability_for_setting_to_zero, 1e-4)
+        if cumulative_probability < -tolerance or cumulative_probability -1 > tolerance:
             return (False,'Invalid state: invalid value for cumulative probability')
         if type(optical_components) != type(dict([])):
             return (False,'Invalid state"optical components is not a dictionary')
@@ -407,7 +410,7 @@ class State():
             try:
                 amplitude = np.cdouble(o_values['amplitude'])
                 probability = float(o_values['probability'])
-                if probability < -1*self._threshold_probability_for_setting_to_zero or probability > 1+self._threshold_probability_for_setting_to_zero:
+                if probability < -1*tolerance or probability > 1+tolerance:
                     return (False,'Invalid state: invalid probability of optical component')
             except:
                 return (False,'Invalid state: issue with optical components')
-- 
2.43.0


From 44e886f4d636b8a17d9903ee0b9f9a258a5d3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 27/49] fix: bridge to a circuit without classical channels
 removes the classical channels

---
 src/fock_state_circuit/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 570cdb8..d4633e3 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -567,7 +567,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             if new_classical > self._no_of_classical_channels:
                 collection_of_states_reshaped.extend(extra_classical_channels=(new_classical - self._no_of_classical_channels))
             elif new_classical < self._no_of_classical_channels:
-                classical_to_keep = [channel for channel in range(new_classical)]
+                # an empty list would keep all channels, an empty tuple removes all channels
+                classical_to_keep = tuple(range(new_classical))
                 collection_of_states_reshaped.reduce(classical_channels_to_keep=classical_to_keep)
 
             collection_of_states_reshaped.adjust_length_of_fock_state(new_length)
-- 
2.43.0


From 2832b71d380a3eeb90b026677d900a25ccbf2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 28/49] fix: probabilities after a photon resolved measurement
 add up to that of the outcome

---
 .../interference_group.py                      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 22f8fc8..573ddbf 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -596,6 +596,21 @@ class InterferenceGroup():
             column.column_amplitude = column.column_amplitude / np.sqrt(sumsquared)
         return
     
+    def normalize_after_measurement(self, probability: float) -> None:
+        """ Normalize a group of columns that was selected by a measurement with given probability. The squares of the column amplitudes 
+            will add up to 1, and the boson factors are scaled with a common factor such that the detection probabilities for all outcomes, 
+            including interference between the columns, add up to 1. The relative weight of the columns remains the same.
+
+        Args:
+            probability (float): the detection probability for the columns in the group before normalization
+        """
+        sumsquared = sum([np.abs(column.column_amplitude)**2 for column in self.by_column()])
+        self.rescale_column_amplitudes()
+        if probability > 1e-12:
+            for column in self.by_column():
+                column.column_boson_factor = column.column_boson_factor * np.sqrt(probability/sumsquared)
+        return
+
     def rescale_boson_factors(self):
         """ Adapt the boson factors such that for each column the 'self detection probability' is equal to the square of the
             column amplitude """
@@ -959,8 +974,7 @@ class InterferenceGroup():
             new_group.group_cumulative_probability *= probability_for_partial_outcome 
 
             # renormalize column_amplitudes and boson factors
-            new_group.rescale_column_amplitudes()
-            new_group.rescale_boson_factors()
+            new_group.normalize_after_measurement(probability_for_partial_outcome)
            
             # write classical channels per outcome
             values_to_measure = [column_list[0]._column_as_tuple_of_values[channel] for channel in optical_channels_to_measure]
-- 
2.43.0


From ac61fef612ab0af677c19dc046d4e084cd46a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 29/49] fix: one entry in the measurement history per photon
 resolved measurement

---
 .../interference_group.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 573ddbf..becb249 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -982,7 +982,7 @@ class InterferenceGroup():
                 for index, value in enumerate(values_to_measure):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability_for_partial_outcome})  
+                state.measurement_results.append({'measurement_results':list(state.classical_channel_values), 'probability': probability_for_partial_outcome})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
-- 
2.43.0


From b5650b4dbb19291d5609d73f3d7bfc8985aebd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 30/49] fix: splitting a column of states does not lose
 precision for small components

---
 .../column_of_states.py                                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 76deb49..461e74b 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -492,7 +492,7 @@ class ColumnOfStates():
                     remaining_probability = np.abs(remaining_amplitude)**2
                     remaining_state.optical_components = [(remaining_component,1)]
                 else:
-                    remaining_probability = 1-split_of_probability
+                    remaining_probability = sum([np.abs(original_optical_components[comp]['amplitude'])**2 for comp in list_of_components[1:]])
                     remaining_amplitude = np.sqrt(remaining_probability)
                     rem_oc = [(comp, original_optical_components[comp]['amplitude']/remaining_amplitude) for comp in list_of_components[1:]]
                     remaining_state.optical_components = rem_oc
-- 
2.43.0


From 46bc02a7b1f82871bd00eef26c5167007594955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 31/49] fix: circular polarization of correlated photon pairs
 agrees with regular entanglement

---
 .../popescu_rohrlich_correlations.py                           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6ed9a57..584d06b 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -322,6 +322,9 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
         for box_number, quantumness_indicator in enumerate(quantumness_indicators):
             vector1 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][0]][0]
             vector2 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][1]][0]
+            # for the entangled state 'hh' + 'vv' a photon pair with linear polarization is found in the same polarization, but a pair with
+            # circular polarization is found in opposite polarization (x-coordinate is the circular component of the Stokes vector)
+            vector2 = [-1*vector2[0], vector2[1], vector2[2]]
             alignment_probability = _probability_from_stokes_vectors(vector1, vector2,quantumness_indicator)
             probability = probability*alignment_probability
       
-- 
2.43.0


From 86d572a189c0f120386a6cbc505c77f9ae1d8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 32/49] fix: classically controlled nodes raise on channels
 that are not in the circuit

---
 src/fock_state_circuit/nodes/controlled_nodes.py       | 8 ++++----
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 8372f76..3317bf3 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift > self._no_of_classical_channels:
+        if classical_channel_for_phase_shift >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift > self._no_of_optical_channels:
+        if optical_channel_to_shift >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index f7b6fd1..3690a48 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,9 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From f87706d2b0467dbae7fbd858bba08a277e73aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 33/49] fix: custom_optical_node raises on every matrix that is
 not 2x2

---
 src/fock_state_circuit/nodes/custom_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index fe2375b..33f835b 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -131,7 +131,7 @@ class CustomNodes(NodeList):
                 'fillstyle' : 'full'
             }|node_info
  
-        if len(matrix_optical) != 2 and len(matrix_optical[0]) != 2:
+        if len(matrix_optical) != 2 or any([len(row) != 2 for row in matrix_optical]):
             raise Exception('Only optical nodes with 2-channel interaction are implemented')
         channel_numbers = optical_channels
         tensor_list = self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_numbers)
-- 
2.43.0


From 922cabf2872797b90b8f1910b90da9a947d9d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 34/49] fix: a collection with an invalid state is reported as
 invalid

---
 src/fock_state_circuit/collection_of_states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index d95f3f6..407c092 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -530,7 +530,10 @@ class CollectionOfStates(Plot):
         if not type(collection_of_states_as_dictionary) == type(dict([])):
             return False     
         for identifier, state in collection_of_states_as_dictionary.items():
-            if not type(identifier) == type('name') and isinstance(state, State) and bool(state):
+            if not type(identifier) == type('name'):
+                return False
+            # a state can also be given as a dictionary, it is checked when the state is created from it
+            if not isinstance(state, dict) and not (isinstance(state, State) and bool(state)):
                 return False
         return True
     
-- 
2.43.0


From fa0fb5a5a155ef2452bcad801516d7bc1374e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 35/49] fix: draw_station draws the stations in the list
 station_to_draw

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6b9456f..df4451e 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1096,7 +1096,7 @@ class Draw():
         elif not isinstance(stations['station_to_draw'],list):
             station_list = [stations['station_to_draw']]
         else: 
-            station_list = list(stations['station_channels'].keys())
+            station_list = stations['station_to_draw']
 
         # create the settings for drawing stations for this circuit
         settings_for_drawing_station = self.create_settings_for_drawing_stations(stations,settings_for_drawing_circuit)
-- 
2.43.0


From b97923b45d75a1b424747bfa2be5cfde41ab713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 36/49] fix: set_classical_channels raises on negative channel
 numbers

---
 src/fock_state_circuit/nodes/classical_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/classical_nodes.py b/src/fock_state_circuit/nodes/classical_nodes.py
index 5684acb..b7915e6 100644
--- a/src/fock_state_circuit/nodes/classical_nodes.py
+++ b/src/fock_state_circuit/nodes/classical_nodes.py
@@ -109,7 +109,8 @@ class ClassicalNodes(NodeList):
         """
         conditions = [
             len(list_of_values_for_classical_channels) != len(list_of_classical_channel_numbers),
-            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels
+            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels,
+            min(list_of_classical_channel_numbers) < 0
             ]
         if any(conditions):
             raise Exception('Incorrect input in function set_classical_channels')
-- 
2.43.0


From 9ec083d201a4e994d7b179edda1aaffb27a15555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 37/49] fix: shift_direct and c_shift_direct raise on channels
 that do not match with the circuit

---
 src/fock_state_circuit/nodes/custom_nodes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 33f835b..4fc6a9c 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -258,6 +258,11 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        # check if lists with channel numbers are ok, otherwise throw exception
+        if (len(shift_per_channel) != len(target_channels) or
+            not all([0 <= target < self._no_of_optical_channels for target in target_channels])):
+            raise Exception('Error in channel input for function FockStateCircuit.shift_direct')
+
         if node_info == None: node_info = {}
         node_info = {
             'label' : "shift",
@@ -324,6 +329,12 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        # check if lists with channel numbers are ok, otherwise throw exception
+        if (len(control_channels) != len(target_channels) or
+            not all([0 <= channel < self._no_of_optical_channels for channel in control_channels + target_channels]) or
+            any([control == target for control, target in zip(control_channels, target_channels)])):
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift_direct')
+
         if node_info == None: node_info = {}
         node_info = {
                 'label' : "c-shift",
-- 
2.43.0


From 09c4290164565834c129718fa32b8e01c62a7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 38/49] fix: hamiltonian_operator_gate lists its channels for
 drawing, so that circuits with it can be drawn

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 3690a48..c3b0c8a 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -21,7 +21,7 @@ class QuantumOperatorNodes(NodeList):
 
         node_info = {
                     'label' : "Hamiltonian",
-                    'channels_optical' : [channels],
+                    'channels_optical' : channels,
                     'markers' : ['s'],
                     'markercolor' : ['purple'],
                     'markerfacecolor' : ['grey'],
-- 
2.43.0


From acce918483cd700be15565c2e9b5be84eec0d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 39/49] fix: a column that is added to a group with a given
 identifier gets that identifier

---
 .../interference_group.py                                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index becb249..afa735f 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -416,6 +416,8 @@ class InterferenceGroup():
             self._interference_group_dict[self._next_new_column_identifier] = column
             return
         else:
+            column.column_identifier = column_identifier
+            column.interference_group_identifier = self.interference_group_identifier
             self._interference_group_dict[column_identifier] = column
             return
             
-- 
2.43.0


From e81224b2888b080335a35c38987b2f441c4988fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 40/49] fix: beam splitters with an invalid second pair of
 channels add no node at all

---
 src/fock_state_circuit/nodes/optical_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 70f1edb..9eadb54 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -292,6 +292,8 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check the channels of the second node before the first one is added to the circuit
+        self._translate_channels_numbers_to_tensor_list(channel_numbers = [input_channels_a[1], input_channels_b[1]])
         self.mix_generic_refl_transm(
             first_channel = input_channels_a[0], 
             second_channel = input_channels_b[0], 
@@ -746,6 +748,8 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check the channels of the second node before the first one is added to the circuit
+        self._translate_channels_numbers_to_tensor_list(channel_numbers = [input_channels_a[1], input_channels_b[1]])
         self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
         self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
         return
-- 
2.43.0


From fe22640266e1181c24dad1e05d5a46f9f8ce7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 41/49] fix: splitting in single photons raises on states with
 several components

---
 .../column_of_states.py                                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 461e74b..acf432d 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -528,7 +528,7 @@ class ColumnOfStates():
 
         """
         # check is all states have a single optical component
-        if not self.all_states_single_optical_component:
+        if any(len(state.optical_components) != 1 for state in self):
             raise Exception('in function split_in_single_photon_states the input collection should only have states with a single optical component')
         
         # this list will contain the single photon states
-- 
2.43.0


From 90ee1d02436d561cc6fa9ea711007cd2eecc8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:41 +0000
Subject: [PATCH 42/49] fix: total probability of an interference group does
 not depend on earlier calls

---
 .../interference_group.py                                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index afa735f..0b10ced 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -869,6 +869,9 @@ class InterferenceGroup():
             dict: Dictionary of form {projection:probability}
         """
         outcomes_and_their_probabilities = dict([])
+        # determine the optical components of the columns, below the stored values are used
+        for column in self.by_column():
+            column.generate_optical_component_corresponding_to_column()
         if list_of_projections is None:
             # determine all possible outcomes
             list_of_outcomes = []
-- 
2.43.0


From 8c6fcf202cd10936e3f17b12f83361ef3c925498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 43/49] fix: threshold of are_all_photon_pairs_factorable is
 used

---
 .../popescu_rohrlich_photon_pair_amplitude_functionality.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
index 4807451..4ca445c 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
@@ -271,7 +271,7 @@ class PopescuRohrlichPhotonPairAmplitudes():
         """
         all_factorable = True
         for amplitudes in self.reproduced_vectors:
-            all_factorable &= self.is_photon_pair_factorable(amplitudes)
+            all_factorable &= self.is_photon_pair_factorable(amplitudes, threshold)
         return all_factorable
     
 
-- 
2.43.0


From ea18147c03242a367c6825e3e16d87ae293c3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 44/49] fix: tensor product with a list adds up amplitudes of a
 component that is listed more than once

---
 src/fock_state_circuit/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9b77366..7d3bb01 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -689,6 +689,9 @@ class State():
                         new_comp = comp1 + comp2
                     else:
                         new_comp = comp2 + comp1
+                    # the same component can be in the list more than once, the amplitudes add up
+                    if new_comp in new_optical_components:
+                        new_amp = new_amp + new_optical_components[new_comp]['amplitude']
                     new_optical_components.update({new_comp: {'amplitude': new_amp, 'probability': np.abs(new_amp)**2 }})
             return new_optical_components
         
-- 
2.43.0


From 5e24e2421897c7a0b74d49f7a76fb957d801082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:50 +0000
Subject: [PATCH 45/49] fix: compound circuits created without list of circuits
 do not share one list

---
 src/fock_state_circuit/compound_circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 365e080..7aa389f 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -47,18 +47,19 @@ class CompoundFockStateCircuit:
     _VERSION = '1.0.0'
 
     def __init__(self, 
-                 list_of_circuits: list = [],
+                 list_of_circuits: list = None,
                  compound_circuit_name: str = None
                 ):
         ''' Constructor for an instance of the class CompoundFockStateCircuit. The instance will be created the list_of_circuits passed as argument. 
             As part of the initialization the method 'refresh()' is called to create an internal list where the circuits are connected via 'bridges'.
         
         Args:
-            list_of_circuits (list[FockStateCircuit], optional): Defaults to []
+            list_of_circuits (list[FockStateCircuit], optional): Defaults to None, in that case a new, empty list is created
             compound_circuit_name (str, optional): Defaults to '' 
         '''
 
-        self.list_of_circuits = list_of_circuits
+        # a default of [] would be shared by all compound circuits that are created without list
+        self.list_of_circuits = [] if list_of_circuits is None else list_of_circuits
         if compound_circuit_name is None:
             self.compound_circuit_name = FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS.get('compound_circuit_title','Optical circuit')
         else:
-- 
2.43.0


From 95adce5147bc278a3180beea0c8b473c0d04c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:50 +0000
Subject: [PATCH 46/49] fix: set_pulse_width accepts None for all channels, as
 documented

---
 .../temporal_functions.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
index d1ed511..ef2bbac 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
@@ -196,7 +196,7 @@ def set_pulse_width(collection_of_states: CollectionOfStates, parameters: list)
         return collection_of_states
 
     # check if all channels have to be set, in that case use fast option
-    if set(info['channels_to_set_pulse_width']) == set(range(collection_of_states._no_of_optical_channels)):
+    if info['channels_to_set_pulse_width'] is None or set(info['channels_to_set_pulse_width']) == set(range(collection_of_states._no_of_optical_channels)):
 
         for state in collection_of_states:
             # if key 'photon_resolution' does not exist add this key
-- 
2.43.0


From c55afceef21ca1dad6cce46a44d718959d8bea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:21 +0000
Subject: [PATCH 47/49] fix: amplitudes of columns with the same component add
 up in the composed state

---
 .../interference_group.py                                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 0b10ced..683df64 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -577,6 +577,9 @@ class InterferenceGroup():
                 state = column.generate_single_state_from_column()
                 for k,v in state.optical_components.items():
                     new_amplitude = column.column_amplitude * v['amplitude']
+                    # more columns can have the same component (for instance after an optical gate), the amplitudes add up
+                    if k in optical_components:
+                        new_amplitude = new_amplitude + optical_components[k]['amplitude']
                     new_probability = np.abs(new_amplitude)**2
                     amp_prob = {'amplitude': new_amplitude, 'probability': new_probability}
                     optical_components.update({k:amp_prob})
-- 
2.43.0


From 5e1e6deb53abc7fc27dd858aba182ef85e957146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:21 +0000
Subject: [PATCH 48/49] fix: phases of single component states become part of
 the column amplitude

---
 .../column_of_states.py                             | 13 +++++++++++++
 .../interference_group.py                           |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index acf432d..c9808e6 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -508,6 +508,16 @@ class ColumnOfStates():
         return new_column
 
 
+    def move_amplitudes_of_states_to_column(self) -> None:
+        """ Multiply the column amplitude with the amplitudes (or just phases) of the states in the column. The states should have a 
+            single optical component and get amplitude 1.
+        """
+        for state in self:
+            component_name = list(state.optical_components.keys())[0]
+            self.column_amplitude = self.column_amplitude * state.optical_components[component_name]['amplitude']
+            state.optical_components = [(component_name, 1)]
+        return
+
     def single_photon_states(self) -> None:
         """ Turn this column into a column with only single photon states and vacuum states.
 
@@ -531,6 +541,9 @@ class ColumnOfStates():
         if any(len(state.optical_components) != 1 for state in self):
             raise Exception('in function split_in_single_photon_states the input collection should only have states with a single optical component')
         
+        # the amplitude of a state should not be repeated for every photon in that state
+        self.move_amplitudes_of_states_to_column()
+
         # this list will contain the single photon states
         new_list_of_states = []
 
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 683df64..56da105 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -526,6 +526,9 @@ class InterferenceGroup():
             self.split_columns()
             return
         else:
+            # the states now have one component, their amplitude becomes part of the column amplitude
+            for column in self:
+                column.move_amplitudes_of_states_to_column()
             return
         
     def single_photon_states(self) -> None:
-- 
2.43.0


From a76c3edc29bd3c04db98fbee2fa9a993a89ec310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:21 +0000
Subject: [PATCH 49/49] fix: columns without states give an empty collection

---
 .../collection_of_state_columns.py                           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 30d51b1..b46b7c6 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -202,6 +202,11 @@ class CollectionOfStateColumns():
                 new_collection_of_states.clear()
             new_collection_of_states.add_state(state.copy())
 
+        # without states in the columns we return an empty collection
+        if new_collection_of_states is None:
+            new_collection_of_states = self._collection_of_states.copy()
+            new_collection_of_states.clear()
+
         return new_collection_of_states
     
     def new_instance_from_state_information(self) -> CollectionOfStateColumns:
-- 
2.43.0

